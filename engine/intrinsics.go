package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type simple func(m *VM, a []Value) Value

func s(f simple) Intrinsic {
	return func(m *VM, fr *Frame, a []Value, dst int32) {
		v := f(m, a)
		m.setReg(fr, dst, v)
	}
}

var noop = s(func(m *VM, a []Value) Value { return nil })

var table map[string]Intrinsic

// modelFuncs: functions replaced by Go source in package models.
var modelFuncs = map[string]string{
	"internal/bytealg.IndexByte":                "IndexByte",
	"internal/bytealg.IndexByteString":          "IndexByteString",
	"internal/bytealg.LastIndexByte":            "LastIndexByte",
	"internal/bytealg.LastIndexByteString":      "LastIndexByteString",
	"internal/bytealg.Count":                    "CountBytes",
	"internal/bytealg.CountString":              "CountString",
	"internal/bytealg.Index":                    "IndexBytes",
	"internal/bytealg.IndexString":              "IndexString",
	"internal/bytealg.Compare":                  "CompareBytes",
	"internal/bytealg.IndexRabinKarp[string]":   "IndexString",
	"internal/bytealg.LastIndexRabinKarp[string]": "LastIndexString",
	"strings.Index":                             "IndexString",
	"strings.IndexByte":                         "IndexByteString",
	"internal/stringslite.Index":                "IndexString",
	"internal/stringslite.IndexByte":            "IndexByteString",
	"bytes.IndexByte":                           "IndexByte",
	"bytes.Equal":                               "EqualBytes",
	"encoding/json.NewEncoder":                  "JSONNewEncoder",
	"(*encoding/json.Encoder).Encode":           "JSONEncode",
	"(*encoding/json.Encoder).SetEscapeHTML":    "JSONSetEscapeHTML",
	"encoding/json.Marshal":                     "JSONMarshal",
}

func (m *VM) intrinsicFor(f *Func) Intrinsic {
	fn := f.fn
	name := f.name
	if in, ok := table[name]; ok {
		return in
	}
	if o := fn.Origin(); o != nil {
		if in, ok := table[o.String()]; ok {
			return in
		}
	}
	if mn, ok := modelFuncs[name]; ok {
		mf := m.getFunc(m.ld.models.Func(mn))
		return func(m *VM, fr *Frame, a []Value, dst int32) {
			m.invoke(fr, &Closure{Fn: mf}, a, dst)
		}
	}
	if fn.Synthetic == "package initializer" {
		if !m.ld.initAllowed(fn.Pkg.Pkg.Path()) {
			return noop
		}
		return nil
	}
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		if fn.Pkg != nil && !m.ld.initAllowed(fn.Pkg.Pkg.Path()) {
			return noop
		}
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if strings.HasPrefix(p, "go.uber.org/zap") {
			return func(m *VM, fr *Frame, a []Value, dst int32) { panic(unsupported{"zap: " + name}) }
		}
	}
	return nil
}

func (m *VM) errorValue(msg Value) Value {
	p := m.ld.pkgs["errors"]
	t := p.Type("errorString").Type()
	v := new(Value)
	*v = Struct{msg}
	return Iface{m.rtype(types.NewPointer(t)), v}
}

func (m *VM) newInput(name Value, kind string, w uint8, sign bool) *Term {
	n := m.concStr(name)
	v := m.freshVar(n, w)
	m.inputs = append(m.inputs, Input{name: n, kind: kind, t: v, sign: sign})
	return v
}

func (m *VM) mutexAt(p Value) *Value {
	q, ok := p.(*Value)
	if !ok || q == nil {
		m.nilDeref()
	}
	// first int leaf of the struct is used as the lock state
	for {
		switch x := (*q).(type) {
		case Struct:
			q = &x[0]
			continue
		}
		return q
	}
}

func (m *VM) lock(p Value) {
	q := m.mutexAt(p)
	if v, ok := (*q).(int64); ok {
		if v != 0 {
			panic(pathEnd{"deadlock", "lock of a held mutex at " + m.where()})
		}
		m.set(q, int64(1))
	}
}

func (m *VM) unlock(p Value) {
	q := m.mutexAt(p)
	if v, ok := (*q).(int64); ok {
		if v != 1 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex at " + m.where()})
		}
		m.set(q, int64(0))
	}
}

func errTuple(v Value) Value { return Tuple{v, Iface{}} }

func init() {
	table = map[string]Intrinsic{
		// ---- harness API
		ndPath + ".Int": s(func(m *VM, a []Value) Value {
			lo, hi := a[1].(int64), a[2].(int64)
			if lo > hi {
				panic(pathEnd{"assume", "empty range"})
			}
			if lo == hi {
				m.inputs = append(m.inputs, Input{name: a[0].(string), kind: "int", t: lo, sign: true})
				return lo
			}
			w := uint8(64)
			if lo >= 0 {
				for _, c := range []uint8{4, 8, 16, 32} {
					if uint64(hi) <= mask(c) {
						w = c
						break
					}
				}
			}
			v := m.newInput(a[0], "int", w, w == 64)
			if m.model != nil {
				m.model[v.id] = uint64(lo) & mask(w)
			}
			var c *Term
			if w == 64 {
				c = m.tf.And(m.tf.Bin(OSLE, m.tf.Const(uint64(lo), 64), v), m.tf.Bin(OSLE, v, m.tf.Const(uint64(hi), 64)))
			} else {
				c = m.tf.And(m.tf.Bin(OULE, m.tf.Const(uint64(lo), w), v), m.tf.Bin(OULE, v, m.tf.Const(uint64(hi), w)))
			}
			m.assume(simpBool(c))
			return m.tf.ZExt(v, 64)
		}),
		ndPath + ".Int64": s(func(m *VM, a []Value) Value {
			v := m.newInput(a[0], "int", 64, true)
			return v
		}),
		ndPath + ".Uint64": s(func(m *VM, a []Value) Value { return m.newInput(a[0], "uint", 64, false) }),
		ndPath + ".Bool":   s(func(m *VM, a []Value) Value { return m.newInput(a[0], "bool", 0, false) }),
		ndPath + ".Byte":   s(func(m *VM, a []Value) Value { return m.newInput(a[0], "byte", 8, false) }),
		ndPath + ".Str": s(func(m *VM, a []Value) Value {
			n := int(a[1].(int64))
			alpha := a[2].(string)
			b := make([]Value, n)
			for i := range b {
				v := m.newInput(a[0].(string)+"["+strconv.Itoa(i)+"]", "byte", 8, false)
				b[i] = v
				if alpha != "" {
					c := m.tf.False
					// ranges of consecutive characters
					var set [256]bool
					for k := 0; k < len(alpha); k++ {
						set[alpha[k]] = true
					}
					for lo := 0; lo < 256; lo++ {
						if !set[lo] {
							continue
						}
						hi := lo
						for hi+1 < 256 && set[hi+1] {
							hi++
						}
						var r *Term
						if lo == hi {
							r = m.tf.Eq(v, m.tf.Const(uint64(lo), 8))
						} else {
							r = m.tf.And(m.tf.Bin(OULE, m.tf.Const(uint64(lo), 8), v), m.tf.Bin(OULE, v, m.tf.Const(uint64(hi), 8)))
						}
						c = m.tf.Or(c, r)
						lo = hi
					}
					if m.model != nil {
						m.model[v.id] = uint64(alpha[0])
					}
					m.assume(simpBool(c))
				}
			}
			return mkStr(b)
		}),
		ndPath + ".Assume": s(func(m *VM, a []Value) Value { m.assume(a[0]); return nil }),
		ndPath + ".Check":  s(func(m *VM, a []Value) Value { m.check(a[0], a[1].(string)); return nil }),
		ndPath + ".KnownCheck": s(func(m *VM, a []Value) Value {
			id := a[1].(string)
			if _, open := m.ex.known[id]; !open {
				m.check(a[0], a[2].(string))
				return nil
			}
			t := m.toTerm(a[0], 0)
			if t.isConst() && t.val == 1 {
				return nil
			}
			if m.jobPos < len(m.job) {
				if t.isConst() {
					return nil
				}
				return nil
			}
			m.sol.Push()
			m.sol.Assert(m.tf.Not(t))
			if m.sol.Check() == rSat {
				md := m.sol.GetModel(m.vars)
				m.sol.Pop()
				m.ex.addViolation(m, "known", a[2].(string), id, md, m.where())
				return nil
			}
			m.sol.Pop()
			return nil
		}),
		ndPath + ".Reach": s(func(m *VM, a []Value) Value {
			m.events = append(m.events, event{"reach", a[0].(string)})
			return nil
		}),
		ndPath + ".Observe": s(func(m *VM, a []Value) Value {
			sl := a[0].(Slice)
			m.obs = append(m.obs, obsEnt{append([]Value(nil), sl...)})
			return nil
		}),
		ndPath + ".Param": s(func(m *VM, a []Value) Value {
			n := a[0].(string)
			v, ok := m.ex.params[n]
			if !ok {
				panic(unsupported{"missing param " + n})
			}
			return int64(v)
		}),
		ndPath + ".Conc": s(func(m *VM, a []Value) Value { return m.concretize(a[0], 64, true) }),
		ndPath + ".And":  s(func(m *VM, a []Value) Value { return simpBool(m.tf.And(m.toTerm(a[0], 0), m.toTerm(a[1], 0))) }),
		ndPath + ".Or":   s(func(m *VM, a []Value) Value { return simpBool(m.tf.Or(m.toTerm(a[0], 0), m.toTerm(a[1], 0))) }),
		ndPath + ".IteInt": s(func(m *VM, a []Value) Value {
			return simpInt(m.tf.Ite(m.toTerm(a[0], 0), m.toTerm(a[1], 64), m.toTerm(a[2], 64)), true)
		}),
		ndPath + ".Log": noop,

		// ---- sync
		"(*sync.Mutex).Lock":      s(func(m *VM, a []Value) Value { m.lock(a[0]); return nil }),
		"(*sync.Mutex).Unlock":    s(func(m *VM, a []Value) Value { m.unlock(a[0]); return nil }),
		"(*sync.Mutex).TryLock":   s(func(m *VM, a []Value) Value { m.lock(a[0]); return true }),
		"(*sync.RWMutex).Lock":    s(func(m *VM, a []Value) Value { m.lock(a[0]); return nil }),
		"(*sync.RWMutex).Unlock":  s(func(m *VM, a []Value) Value { m.unlock(a[0]); return nil }),
		"(*sync.RWMutex).RLock": s(func(m *VM, a []Value) Value {
			q := m.mutexAt(a[0])
			if v, ok := (*q).(int64); ok && v == 1 {
				panic(pathEnd{"deadlock", "RLock while write-locked at " + m.where()})
			}
			return nil
		}),
		"(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(m *VM, fr *Frame, a []Value, dst int32) {
			p := a[0].(*Value)
			q := p
			for {
				if st, ok := (*q).(Struct); ok {
					// done is the first field that is (or contains) an integer
					q = firstIntLeaf(st)
				}
				break
			}
			if v, ok := (*q).(int64); ok && v != 0 {
				return
			}
			m.set(q, int64(1))
			m.invoke(fr, a[1].(*Closure), nil, -1)
		},
		"(*github.com/SokaDance/rmx.RecursiveMutex).Lock":   noop,
		"(*github.com/SokaDance/rmx.RecursiveMutex).Unlock": noop,
		"(*github.com/SokaDance/rmx.RecursiveMutex).TryLock": s(func(m *VM, a []Value) Value { return true }),
		"(*sync.Pool).Get": func(m *VM, fr *Frame, a []Value, dst int32) {
			st := (*a[0].(*Value)).(Struct)
			for _, f := range st {
				if cl, ok := f.(*Closure); ok {
					if cl == nil {
						break
					}
					m.invoke(fr, cl, nil, dst)
					return
				}
			}
			m.setReg(fr, dst, Iface{})
		},
		"(*sync.Pool).Put": noop,

		// ---- strings.Builder (unsafe inside)
		"(*strings.Builder).String": s(func(m *VM, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				m.nilDeref()
			}
			st := (*p).(Struct)
			return mkStr(st[1].(Slice))
		}),
		"(*strings.Builder).copyCheck": noop,
		"(*strings.Builder).grow":      noop,
		"(*strings.Builder).Grow":      noop,
		"strings.Clone":                s(func(m *VM, a []Value) Value { return a[0] }),
		"internal/stringslite.Clone":   s(func(m *VM, a []Value) Value { return a[0] }),
		"internal/bytealg.MakeNoZero": s(func(m *VM, a []Value) Value {
			n := int(a[0].(int64))
			sl := make(Slice, n)
			for i := range sl {
				sl[i] = int64(0)
			}
			return sl
		}),
		"internal/bytealg.Equal": s(func(m *VM, a []Value) Value { return m.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }),
		"internal/abi.NoEscape": s(func(m *VM, a []Value) Value { return a[0] }),
		"internal/godebug.New":  s(func(m *VM, a []Value) Value { return (*Value)(nil) }),
		"(*internal/godebug.Setting).Value":          s(func(m *VM, a []Value) Value { return "" }),
		"(*internal/godebug.Setting).IncNonDefault":  noop,
		"internal/godebugs.All": noop,

		// ---- math
		"math.Float64bits":     s(func(m *VM, a []Value) Value { return int64(math.Float64bits(a[0].(float64))) }),
		"math.Float64frombits": s(func(m *VM, a []Value) Value { return math.Float64frombits(uint64(m.concretize(a[0], 64, false))) }),
		"math.Float32bits":     s(func(m *VM, a []Value) Value { return int64(math.Float32bits(float32(a[0].(float64)))) }),
		"math.Float32frombits": s(func(m *VM, a []Value) Value { return float64(math.Float32frombits(uint32(m.concretize(a[0], 32, false)))) }),
		"math.Floor":           s(func(m *VM, a []Value) Value { return math.Floor(a[0].(float64)) }),
		"math.Trunc":           s(func(m *VM, a []Value) Value { return math.Trunc(a[0].(float64)) }),
		"math.Sqrt":            s(func(m *VM, a []Value) Value { return math.Sqrt(a[0].(float64)) }),
		"math.Abs":             s(func(m *VM, a []Value) Value { return math.Abs(a[0].(float64)) }),
		"strconv.FormatFloat": s(func(m *VM, a []Value) Value {
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}),

		// ---- runtime / environment
		"runtime.GC": noop, "runtime.SetFinalizer": noop, "runtime.KeepAlive": noop, "runtime.Gosched": noop,
		"github.com/petermattis/goid.Get": s(func(m *VM, a []Value) Value { return int64(1) }),
		"time.runtimeNano": s(func(m *VM, a []Value) Value { return int64(2) }),
		"os.Getenv":                       s(func(m *VM, a []Value) Value { return "" }),

		"github.com/vmihailenco/msgpack/v5.stringToBytes": s(func(m *VM, a []Value) Value { return Slice(strBytes(a[0])) }),
		"github.com/vmihailenco/msgpack/v5.bytesToString": s(func(m *VM, a []Value) Value { return mkStr(a[0].(Slice)) }),
		"github.com/vmihailenco/msgpack/v5.init#5":             noop, // compares functions
		"github.com/vmihailenco/msgpack/v5.RegisterExtEncoder": noop,
		"github.com/vmihailenco/msgpack/v5.RegisterExtDecoder": noop,
		// ---- fmt
		"fmt.Sprintf": s(func(m *VM, a []Value) Value { return m.sprintf(m.concStr(a[0]), a[1].(Slice)) }),
		"fmt.Sprint": s(func(m *VM, a []Value) Value {
			var r Value = ""
			for _, x := range a[0].(Slice) {
				r = strConcat(r, m.fmtVal('v', x))
			}
			return r
		}),
		"fmt.Errorf": s(func(m *VM, a []Value) Value {
			f := m.concStr(a[0])
			args := a[1].(Slice)
			msg := m.sprintf(f, args)
			if strings.Contains(f, "%w") {
				for _, x := range args {
					if i, ok := x.(Iface); ok && i.T != nil && types.Implements(i.T.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						v := new(Value)
						*v = Struct{msg, i}
						return Iface{m.rtype(types.NewPointer(m.ld.pkgs["fmt"].Type("wrapError").Type())), v}
					}
				}
			}
			return m.errorValue(msg)
		}),
		"fmt.Println": s(func(m *VM, a []Value) Value { return Tuple{int64(0), Iface{}} }),
		"fmt.Printf":  s(func(m *VM, a []Value) Value { return Tuple{int64(0), Iface{}} }),
		"fmt.Print":   s(func(m *VM, a []Value) Value { return Tuple{int64(0), Iface{}} }),

		// ---- randomness: unique values (documented contract)
		"github.com/google/uuid.New":       s(func(m *VM, a []Value) Value { return m.uuid() }),
		"github.com/google/uuid.NewRandom": s(func(m *VM, a []Value) Value { return errTuple(m.uuid()) }),

		// ---- reflect (small subset)
		"reflect.TypeOf": s(func(m *VM, a []Value) Value {
			i := a[0].(Iface)
			if i.T == nil {
				return Iface{}
			}
			return m.reflectType(i.T)
		}),
		"reflect.ValueOf": s(func(m *VM, a []Value) Value {
			st := zero(m.ld.pkgs["reflect"].Type("Value").Type()).(Struct)
			st[0] = &Opaque{"rvalue", a[0]}
			return st
		}),
		"(reflect.Value).Pointer": s(func(m *VM, a []Value) Value {
			i := a[0].(Struct)[0].(*Opaque).data.(Iface)
			p, ok := i.V.(*Value)
			if !ok {
				panic(unsupported{"reflect.Value.Pointer"})
			}
			return m.ptrID(p)
		}),
		"reflect.DeepEqual": s(func(m *VM, a []Value) Value { return m.deepEqual(a[0], a[1], 0) }),
		"(*reflect.rtype).String": s(func(m *VM, a []Value) Value { return a[0].(*Opaque).data.(*RType).name }),
		"(*reflect.rtype).Kind":   s(func(m *VM, a []Value) Value { return kindOf(a[0].(*Opaque).data.(*RType).T) }),
		"(*reflect.rtype).Name": s(func(m *VM, a []Value) Value {
			if n, ok := a[0].(*Opaque).data.(*RType).T.(*types.Named); ok {
				return n.Obj().Name()
			}
			if n, ok := a[0].(*Opaque).data.(*RType).T.(*types.Basic); ok {
				return n.Name()
			}
			return ""
		}),
		"(*reflect.rtype).Elem": s(func(m *VM, a []Value) Value {
			t := a[0].(*Opaque).data.(*RType).T
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return m.reflectType(m.rtype(u.Elem()))
			case *types.Slice:
				return m.reflectType(m.rtype(u.Elem()))
			}
			panic(unsupported{"rtype.Elem"})
		}),
		"(*reflect.rtype).Implements": s(func(m *VM, a []Value) Value {
			t := a[0].(*Opaque).data.(*RType)
			u := a[1].(Iface).V.(*Opaque).data.(*RType)
			return m.implements(t, u.T)
		}),
		"internal/reflectlite.Swapper": s(func(m *VM, a []Value) Value { return m.swapper(a[0]) }),
		"internal/reflectlite.ValueOf": s(func(m *VM, a []Value) Value {
			st := zero(m.ld.pkgs["internal/reflectlite"].Type("Value").Type()).(Struct)
			st[0] = &Opaque{"rvalue", a[0]}
			return st
		}),
		"(internal/reflectlite.Value).Len": s(func(m *VM, a []Value) Value {
			return int64(len(a[0].(Struct)[0].(*Opaque).data.(Iface).V.(Slice)))
		}),
		"internal/reflectlite.TypeOf": s(func(m *VM, a []Value) Value {
			i := a[0].(Iface)
			if i.T == nil {
				return Iface{}
			}
			return m.liteType(i.T)
		}),
		"(internal/reflectlite.rtype).Elem": s(func(m *VM, a []Value) Value {
			switch u := liteArg(a[0]).T.Underlying().(type) {
			case *types.Pointer:
				return m.liteType(m.rtype(u.Elem()))
			case *types.Slice:
				return m.liteType(m.rtype(u.Elem()))
			}
			panic(unsupported{"reflectlite Elem"})
		}),
		"(internal/reflectlite.rtype).Comparable":  s(func(m *VM, a []Value) Value { return types.Comparable(liteArg(a[0]).T) }),
		"(internal/reflectlite.rtype).Kind":        s(func(m *VM, a []Value) Value { return kindOf(liteArg(a[0]).T) }),
		"(internal/reflectlite.rtype).Implements":  s(func(m *VM, a []Value) Value { return m.implements(liteArg(a[0]), liteArg(a[1].(Iface).V).T) }),
		"reflect.Swapper": s(func(m *VM, a []Value) Value { return m.swapper(a[0]) }),

		"internal/race.Enabled": noop,
		"unsafe.String":         nil,
	}
	delete(table, "unsafe.String")
}

func firstIntLeaf(st Struct) *Value {
	for i := range st {
		switch x := st[i].(type) {
		case int64:
			return &st[i]
		case Struct:
			if r := firstIntLeaf(x); r != nil {
				return r
			}
		}
	}
	return nil
}

func (m *VM) uuid() Value {
	old := m.uuidCtr
	m.undo(func() { m.uuidCtr = old })
	m.uuidCtr++
	a := make(Array, 16)
	for i := range a {
		a[i] = int64(0)
	}
	a[6] = int64(0x40)
	a[8] = int64(0x80)
	a[15] = m.uuidCtr & 0xff
	a[14] = m.uuidCtr >> 8 & 0xff
	return a
}

func (m *VM) ptrID(p *Value) Value {
	if p == nil {
		return int64(0)
	}
	if id, ok := m.ptrIDs[p]; ok {
		return id
	}
	id := int64(0x10000 + 64*len(m.ptrIDs))
	m.ptrIDs[p] = id
	return id
}

func (m *VM) liteType(t *RType) Value {
	return Iface{m.rtype(m.ld.pkgs["internal/reflectlite"].Type("rtype").Type()), Struct{m.rtOpaque(t)}}
}

func liteArg(v Value) *RType { return v.(Struct)[0].(*Opaque).data.(*RType) }

func (m *VM) reflectType(t *RType) Value {
	rt := m.rtype(types.NewPointer(m.ld.pkgs["reflect"].Type("rtype").Type()))
	o := m.rtOpaque(t)
	return Iface{rt, o}
}


func (m *VM) rtOpaque(t *RType) *Opaque {
	if t.refl == nil {
		t.refl = &Opaque{"rtype", t}
	}
	return t.refl
}

func kindOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return int64(1)
		case types.Int:
			return int64(2)
		case types.Int8:
			return int64(3)
		case types.Int16:
			return int64(4)
		case types.Int32:
			return int64(5)
		case types.Int64:
			return int64(6)
		case types.Uint:
			return int64(7)
		case types.Uint8:
			return int64(8)
		case types.Uint16:
			return int64(9)
		case types.Uint32:
			return int64(10)
		case types.Uint64:
			return int64(11)
		case types.Uintptr:
			return int64(12)
		case types.Float32:
			return int64(13)
		case types.Float64:
			return int64(14)
		case types.String:
			return int64(24)
		}
	case *types.Array:
		return int64(17)
	case *types.Chan:
		return int64(18)
	case *types.Signature:
		return int64(19)
	case *types.Interface:
		return int64(20)
	case *types.Map:
		return int64(21)
	case *types.Pointer:
		return int64(22)
	case *types.Slice:
		return int64(23)
	case *types.Struct:
		return int64(25)
	}
	panic(unsupported{"reflect kind of " + t.String()})
}

func (m *VM) swapper(v Value) Value {
	sl := v.(Iface).V.(Slice)
	return &Closure{Fn: &Func{name: "swapper", compiled: true, intr: func(m *VM, fr *Frame, a []Value, dst int32) {
		i, j := m.concInt(a[0]), m.concInt(a[1])
		x, y := copyVal(sl[i]), copyVal(sl[j])
		m.storeVal(&sl[i], y)
		m.storeVal(&sl[j], x)
	}}}
}

func (m *VM) deepEqual(a, b Value, depth int) Value {
	if depth > 200 {
		panic(unsupported{"deep DeepEqual"})
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if x.T != y.T {
			return false
		}
		return m.deepEqual(x.V, y.V, depth+1)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return m.deepEqual(*x, *y, depth+1)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r Value = true
		for i := range x {
			r = m.andV(r, m.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case *Map:
		y := b.(*Map)
		if x == y {
			return true
		}
		if x == nil || y == nil || x.n != y.n {
			return x == nil && y == nil
		}
		var r Value = true
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := m.mapFind(y, e.k, nil)
			if f == nil {
				return false
			}
			r = m.andV(r, m.deepEqual(e.v, f.v, depth+1))
		}
		return r
	case *Closure:
		return x == nil && b.(*Closure) == nil
	}
	return m.equal(a, b)
}

func (m *VM) fmtVal(verb byte, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.T == nil {
		return "<nil>"
	}
	if n, ok := i.T.T.(*types.Named); ok && n.NumMethods() > 0 {
		if verb != 'd' && verb != 'c' && verb != 'q' && verb != 'x' {
			return "<" + i.T.name + ">"
		}
	}
	switch x := i.V.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		return x
	case *SymStr:
		if verb == 'q' {
			return strconv.Quote(m.concStr(x))
		}
		return x
	case int64:
		switch verb {
		case 'c':
			return string(rune(x))
		case 'x':
			return strconv.FormatInt(x, 16)
		case 'q':
			return strconv.QuoteRune(rune(x))
		}
		if _, sg := intInfo(i.T.T); !sg {
			return strconv.FormatUint(uint64(x), 10)
		}
		return strconv.FormatInt(x, 10)
	case *Term:
		if x.w == 0 {
			if m.branch(x) {
				return "true"
			}
			return "false"
		}
		w, sg := intInfo(i.T.T)
		return m.fmtVal(verb, Iface{i.T, m.concretize(x, w, sg)})
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	}
	return "<" + i.T.name + ">"
}

// sprintf formats the simple verbs; other values print as an opaque placeholder (formatting is not the subject).
func (m *VM) sprintf(f string, args Slice) Value {
	var out Value = ""
	ai := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = strConcat(out, f[i:j])
			i = j - 1
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(f[i])+"(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		verb := f[i]
		flags := f[st:i]
		if verb == 'T' {
			out = strConcat(out, a.(Iface).T.name)
			continue
		}
		r := m.fmtVal(verb, a)
		if flags != "" {
			if s, ok := r.(string); ok {
				iv, isInt := a.(Iface).V.(int64)
				if isInt && (verb == 'd' || verb == 'x' || verb == 'X') {
					s = fmt.Sprintf("%"+flags+string(verb), iv)
				} else if _, isS := a.(Iface).V.(string); isS {
					s = fmt.Sprintf("%"+flags+string(verb), a.(Iface).V)
				}
				r = s
			}
		}
		out = strConcat(out, r)
	}
	return out
}

var _ ssa.Member
