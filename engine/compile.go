package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opd struct {
	r int32
	c Value
}

func (o *opd) get(regs []Value) Value {
	if o.r >= 0 {
		return regs[o.r]
	}
	return o.c
}

type fnc struct {
	m   *VM
	f   *Func
	reg map[ssa.Value]int32
	n   int32
}

func (c *fnc) regOf(v ssa.Value) int32 {
	if r, ok := c.reg[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.reg[v] = r
	return r
}

func (m *VM) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s := intInfo(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return norm(i, w, s)
			}
			if u, ok := constant.Uint64Val(v); ok {
				return norm(int64(u), w, s)
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b.Kind() == types.Float32 {
				f = f32(f)
			}
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	panic(unsupported{"const " + c.String()})
}

func (c *fnc) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{-1, c.m.constVal(x)}
	case *ssa.Global:
		return opd{-1, c.m.global(x)}
	case *ssa.Function:
		return opd{-1, &Closure{Fn: c.m.getFunc(x)}}
	case *ssa.Builtin:
		return opd{-1, x}
	}
	return opd{c.regOf(v), nil}
}

func (c *fnc) opds(vs []ssa.Value) []opd {
	r := make([]opd, len(vs))
	for i, v := range vs {
		r[i] = c.opd(v)
	}
	return r
}

func (m *VM) global(g *ssa.Global) *Value {
	if p := m.globals[g]; p != nil {
		return p
	}
	p := new(Value)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	*p = zero(t)
	m.globals[g] = p
	return p
}

func (m *VM) compile(f *Func) {
	f.compiled = true
	fn := f.fn
	if in := m.intrinsicFor(f); in != nil {
		f.intr = in
		return
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		name := f.name
		f.intr = func(m *VM, fr *Frame, args []Value, dst int32) {
			panic(unsupported{"no body: " + name})
		}
		return
	}
	m.covered[fn] = true
	c := &fnc{m: m, f: f, reg: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		c.regOf(p)
	}
	f.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		c.regOf(p)
	}
	f.nfree = len(fn.FreeVars)
	starts := make([]int, len(fn.Blocks))
	type fix struct {
		at   int
		edge [2]*ssa.BasicBlock
	}
	f.recover = -1
	for _, b := range fn.Blocks {
		starts[b.Index] = len(f.code)
		if b == fn.Recover {
			f.recover = len(f.code)
		}
		for _, in := range b.Instrs {
			o := c.instr(in, b, starts)
			if o == nil {
				continue
			}
			f.code = append(f.code, o)
			f.instrs = append(f.instrs, in)
		}
	}
	f.nregs = int(c.n)
	_ = fix{}
}

type phiMove struct {
	dst int32
	src opd
}

func (c *fnc) edge(from, to *ssa.BasicBlock, starts []int) func(m *VM, fr *Frame) {
	var moves []phiMove
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		moves = append(moves, phiMove{c.regOf(ph), c.opd(ph.Edges[pi])})
	}
	idx := to.Index
	switch len(moves) {
	case 0:
		return func(m *VM, fr *Frame) { fr.pc = starts[idx] }
	case 1:
		mv := moves[0]
		return func(m *VM, fr *Frame) {
			m.setReg(fr, mv.dst, mv.src.get(fr.regs))
			fr.pc = starts[idx]
		}
	}
	return func(m *VM, fr *Frame) {
		var buf [8]Value
		tmp := buf[:0]
		for i := range moves {
			tmp = append(tmp, moves[i].src.get(fr.regs))
		}
		for i := range moves {
			m.setReg(fr, moves[i].dst, tmp[i])
		}
		fr.pc = starts[idx]
	}
}

func (c *fnc) instr(in ssa.Instruction, b *ssa.BasicBlock, starts []int) (res op) {
	m := c.m
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res = func(m *VM, fr *Frame) { panic(u) }
				return
			}
			panic(r)
		}
	}()
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return nil
	case *ssa.Alloc:
		d := c.regOf(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAggregate(t) {
			return func(m *VM, fr *Frame) {
				p := new(Value)
				*p = zero(t)
				m.setReg(fr, d, p)
			}
		}
		z := zero(t)
		return func(m *VM, fr *Frame) {
			p := new(Value)
			*p = z
			m.setReg(fr, d, p)
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.Call:
		return c.call(&x.Call, c.regOf(x), x.Type())
	case *ssa.Go:
		return func(m *VM, fr *Frame) { panic(unsupported{"go statement"}) }
	case *ssa.Defer:
		args, fnv := c.callTarget(&x.Call)
		var ds opd
		has := false
		if x.DeferStack != nil {
			ds = c.opd(x.DeferStack)
			has = true
		}
		return func(m *VM, fr *Frame) {
			as, cl := m.evalCall(fr, args, fnv)
			tf := fr
			if has {
				tf = ds.get(fr.regs).(*Opaque).data.(*Frame)
			}
			tf.defers = &deferRec{fn: cl, args: as, next: tf.defers}
		}
	case *ssa.RunDefers:
		return func(m *VM, fr *Frame) {
			if fr.defers == nil {
				return
			}
			dr := fr.defers
			fr.defers = dr.next
			fr.pc--
			m.callDeferred(fr, dr)
		}
	case *ssa.Panic:
		v := c.opd(x.X)
		return func(m *VM, fr *Frame) {
			val := v.get(fr.regs)
			if i, ok := val.(Iface); ok && i.T == nil {
				val = m.mkRuntimeError("panic called with nil argument")
			}
			panic(vmPanic{val})
		}
	case *ssa.Return:
		rs := c.opds(x.Results)
		switch len(rs) {
		case 0:
			return func(m *VM, fr *Frame) { m.doReturn(fr, nil) }
		case 1:
			r := rs[0]
			return func(m *VM, fr *Frame) { m.doReturn(fr, r.get(fr.regs)) }
		}
		return func(m *VM, fr *Frame) {
			t := make(Tuple, len(rs))
			for i := range rs {
				t[i] = rs[i].get(fr.regs)
			}
			m.doReturn(fr, t)
		}
	case *ssa.Jump:
		return c.edge(b, b.Succs[0], starts)
	case *ssa.If:
		cond := c.opd(x.Cond)
		tb := c.edge(b, b.Succs[0], starts)
		fb := c.edge(b, b.Succs[1], starts)
		if b.Succs[0] == b.Succs[1] {
			return tb
		}
		return func(m *VM, fr *Frame) {
			v := cond.get(fr.regs)
			bv, ok := v.(bool)
			if !ok {
				bv = m.branch(v)
			}
			if bv {
				tb(m, fr)
			} else {
				fb(m, fr)
			}
		}
	case *ssa.Store:
		a := c.opd(x.Addr)
		v := c.opd(x.Val)
		agg := isAggregate(x.Val.Type())
		m.checkGlobalUse(x.Addr)
		return func(m *VM, fr *Frame) {
			p, ok := a.get(fr.regs).(*Value)
			if !ok || p == nil {
				m.nilDeref()
			}
			if m.par != nil {
				m.touchAll(p, true)
			}
			if agg {
				m.storeVal(p, v.get(fr.regs))
			} else {
				m.set(p, v.get(fr.regs))
			}
		}
	case *ssa.FieldAddr:
		a := c.opd(x.X)
		d := c.regOf(x)
		i := x.Field
		return func(m *VM, fr *Frame) {
			p, ok := a.get(fr.regs).(*Value)
			if !ok {
				panic(unsupported{"field of opaque pointer"})
			}
			if p == nil {
				m.nilDeref()
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported{fmt.Sprintf("field of %T", *p)})
			}
			m.setReg(fr, d, &s[i])
		}
	case *ssa.Field:
		a := c.opd(x.X)
		d := c.regOf(x)
		i := x.Field
		return func(m *VM, fr *Frame) {
			m.setReg(fr, d, a.get(fr.regs).(Struct)[i])
		}
	case *ssa.IndexAddr:
		a := c.opd(x.X)
		ix := c.opd(x.Index)
		d := c.regOf(x)
		_, signed := intInfo(x.Index.Type())
		return func(m *VM, fr *Frame) {
			var arr []Value
			switch y := a.get(fr.regs).(type) {
			case Slice:
				arr = y
			case *Value:
				if y == nil {
					m.nilDeref()
				}
				arr = (*y).(Array)
			default:
				panic(unsupported{fmt.Sprintf("index of %T", y)})
			}
			i := m.index(ix.get(fr.regs), len(arr), signed)
			m.setReg(fr, d, &arr[i])
		}
	case *ssa.Index:
		a := c.opd(x.X)
		ix := c.opd(x.Index)
		d := c.regOf(x)
		_, signed := intInfo(x.Index.Type())
		return func(m *VM, fr *Frame) {
			switch y := a.get(fr.regs).(type) {
			case Array:
				i := m.index(ix.get(fr.regs), len(y), signed)
				m.setReg(fr, d, y[i])
			default:
				i := m.index(ix.get(fr.regs), strLen(y), signed)
				m.setReg(fr, d, strAt(y, i))
			}
		}
	case *ssa.Lookup:
		a := c.opd(x.X)
		k := c.opd(x.Index)
		d := c.regOf(x)
		if isString(x.X.Type()) {
			_, signed := intInfo(x.Index.Type())
			return func(m *VM, fr *Frame) {
				s := a.get(fr.regs)
				i := m.index(k.get(fr.regs), strLen(s), signed)
				m.setReg(fr, d, strAt(s, i))
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		et := mt.Elem()
		commaOk := x.CommaOk
		return func(m *VM, fr *Frame) {
			mp := a.get(fr.regs).(*Map)
			var v Value
			var found bool
			if m.par != nil {
				m.touchMap(mp, false)
			}
			if e := m.mapFind(mp, k.get(fr.regs), mt.Key()); e != nil {
				v, found = copyVal(e.v), true
			} else {
				v = zero(et)
			}
			if commaOk {
				m.setReg(fr, d, Tuple{v, found})
			} else {
				m.setReg(fr, d, v)
			}
		}
	case *ssa.MapUpdate:
		a := c.opd(x.Map)
		k := c.opd(x.Key)
		v := c.opd(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(m *VM, fr *Frame) {
			mp := a.get(fr.regs).(*Map)
			if mp == nil {
				m.rtPanicPlain("assignment to entry in nil map")
			}
			if m.par != nil {
				m.touchMap(mp, true)
			}
			m.mapSet(mp, k.get(fr.regs), copyVal(v.get(fr.regs)), kt)
		}
	case *ssa.MakeMap:
		d := c.regOf(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(m *VM, fr *Frame) {
			m.setReg(fr, d, &Map{idx: map[any]*mapEnt{}, kt: kt})
		}
	case *ssa.MakeSlice:
		d := c.regOf(x)
		l := c.opd(x.Len)
		cp := c.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(m *VM, fr *Frame) {
			n := m.sizeArg(l.get(fr.regs), "makeslice: len out of range")
			k := n
			if cp.r != l.r || cp.c != l.c {
				k = m.sizeArg(cp.get(fr.regs), "makeslice: cap out of range")
			}
			if k < n {
				m.rtError("makeslice: cap out of range")
			}
			m.setReg(fr, d, mkSlice(et, n, k))
		}
	case *ssa.MakeChan:
		return func(m *VM, fr *Frame) { panic(unsupported{"chan"}) }
	case *ssa.MakeInterface:
		v := c.opd(x.X)
		d := c.regOf(x)
		rt := m.rtype(x.X.Type())
		if v.r < 0 {
			cv := Iface{rt, v.c}
			return func(m *VM, fr *Frame) { m.setReg(fr, d, cv) }
		}
		return func(m *VM, fr *Frame) { m.setReg(fr, d, Iface{rt, v.get(fr.regs)}) }
	case *ssa.MakeClosure:
		d := c.regOf(x)
		f := m.getFunc(x.Fn.(*ssa.Function))
		bs := c.opds(x.Bindings)
		return func(m *VM, fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr.regs)
			}
			m.setReg(fr, d, &Closure{Fn: f, Env: env})
		}
	case *ssa.ChangeType:
		v := c.opd(x.X)
		d := c.regOf(x)
		return func(m *VM, fr *Frame) { m.setReg(fr, d, v.get(fr.regs)) }
	case *ssa.ChangeInterface:
		v := c.opd(x.X)
		d := c.regOf(x)
		return func(m *VM, fr *Frame) { m.setReg(fr, d, v.get(fr.regs)) }
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Extract:
		v := c.opd(x.Tuple)
		d := c.regOf(x)
		i := x.Index
		return func(m *VM, fr *Frame) {
			m.setReg(fr, d, v.get(fr.regs).(Tuple)[i])
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.Range:
		v := c.opd(x.X)
		d := c.regOf(x)
		if isString(x.X.Type()) {
			return func(m *VM, fr *Frame) { m.setReg(fr, d, &StrIter{s: v.get(fr.regs)}) }
		}
		return func(m *VM, fr *Frame) {
			mp, _ := v.get(fr.regs).(*Map)
			m.setReg(fr, d, &MapIter{m: mp, any: m.mapOrder})
		}
	case *ssa.Next:
		v := c.opd(x.Iter)
		d := c.regOf(x)
		tt := x.Type().(*types.Tuple)
		kz, vz := safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())
		return func(m *VM, fr *Frame) {
			switch it := v.get(fr.regs).(type) {
			case *StrIter:
				m.setReg(fr, d, m.strNext(it))
			case *MapIter:
				m.setReg(fr, d, m.mapNext(it, kz, vz))
			}
		}
	case *ssa.Select:
		return func(m *VM, fr *Frame) { panic(unsupported{"select"}) }
	case *ssa.Send:
		return func(m *VM, fr *Frame) { panic(unsupported{"send"}) }
	case *ssa.SliceToArrayPointer:
		v := c.opd(x.X)
		d := c.regOf(x)
		_ = v
		return func(m *VM, fr *Frame) { _ = d; panic(unsupported{"slice to array pointer"}) }
	}
	panic(unsupported{fmt.Sprintf("instruction %T", in)})
}

func safeZero(t types.Type) (v Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return zero(t)
}

func mkSlice(et types.Type, n, k int) Slice {
	if k > 1<<22 {
		panic(unsupported{"huge make"})
	}
	s := make(Slice, k)
	if isAggregate(et) {
		for i := range s {
			s[i] = zero(et)
		}
	} else {
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (m *VM) sizeArg(v Value, msg string) int {
	if t, ok := v.(*Term); ok {
		// bound: sizes outside [0,64] are split off into the panic / huge classes
		neg := m.branch(m.tf.Bin(OSLT, t, m.tf.Const(0, t.w)))
		if neg {
			m.rtError(msg)
		}
		if m.branch(m.tf.Bin(OSLT, m.tf.Const(4096, t.w), t)) {
			panic(pathEnd{"huge-alloc", "make with size > 4096"})
		}
		return int(m.concretize(t, t.w, true))
	}
	n := v.(int64)
	if n < 0 {
		m.rtError(msg)
	}
	return int(n)
}

func (m *VM) nilDeref() {
	m.rtError("invalid memory address or nil pointer dereference")
}

func (m *VM) rtPanicPlain(msg string) { m.rtError(msg) }

// index checks bounds and concretizes.
func (m *VM) index(v Value, n int, signed bool) int {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			m.rtError(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		w := i.w
		var in *Term
		if signed {
			in = m.tf.And(m.tf.Bin(OSLE, m.tf.Const(0, w), i), m.slt(i, int64(n)))
		} else {
			if w < 64 && uint64(n) > mask(w) {
				in = m.tf.True
			} else {
				in = m.tf.Bin(OULT, i, m.tf.Const(uint64(n), w))
			}
		}
		if !m.branch(in) {
			m.rtError(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return int(m.concretize(i, w, signed))
	}
	panic(fmt.Sprintf("index %T", v))
}

func (m *VM) slt(i *Term, n int64) *Term {
	if i.w < 64 && n >= int64(1)<<(i.w-1) {
		return m.tf.True
	}
	return m.tf.Bin(OSLT, i, m.tf.Const(uint64(n), i.w))
}

func (c *fnc) slice(x *ssa.Slice) op {
	a := c.opd(x.X)
	d := c.regOf(x)
	var lo, hi, mx opd
	if x.Low != nil {
		lo = c.opd(x.Low)
	} else {
		lo = opd{-1, int64(0)}
	}
	hasHi, hasMax := x.High != nil, x.Max != nil
	if hasHi {
		hi = c.opd(x.High)
	}
	if hasMax {
		mx = c.opd(x.Max)
	}
	return func(m *VM, fr *Frame) {
		v := a.get(fr.regs)
		var n, cp int
		var arr []Value
		isStr := false
		nilSlice := false
		switch y := v.(type) {
		case Slice:
			arr, n, cp = y, len(y), cap(y)
			nilSlice = y == nil
		case *Value:
			if y == nil {
				m.nilDeref()
			}
			arr = (*y).(Array)
			n, cp = len(arr), len(arr)
		case string, *SymStr:
			n = strLen(v)
			cp = n
			isStr = true
		default:
			panic(unsupported{fmt.Sprintf("slice of %T", v)})
		}
		h := n
		k := cp
		if hasMax {
			k = m.bound(mx.get(fr.regs), 0, cp, "slice bounds out of range [::%s] with capacity")
		}
		if hasHi {
			h = m.bound(hi.get(fr.regs), 0, k, "slice bounds out of range [:%s] with capacity")
		}
		l := m.bound(lo.get(fr.regs), 0, h, "slice bounds out of range [%s:]")
		if isStr {
			m.setReg(fr, d, strSlice(v, l, h))
			return
		}
		if nilSlice {
			m.setReg(fr, d, Slice(nil))
			return
		}
		m.setReg(fr, d, Slice(arr[l:h:k]))
	}
}

func (m *VM) bound(v Value, lo, hi int, msg string) int {
	switch i := v.(type) {
	case int64:
		if i < int64(lo) || i > int64(hi) {
			m.rtError(fmt.Sprintf(msg, fmt.Sprint(i)))
		}
		return int(i)
	case *Term:
		in := m.tf.And(m.tf.Bin(OSLE, m.tf.Const(uint64(lo), i.w), i), m.slt(i, int64(hi)+1))
		if !m.branch(in) {
			m.rtError(fmt.Sprintf(msg, "symbolic"))
		}
		return int(m.concretize(i, i.w, true))
	}
	panic(fmt.Sprintf("bound %T", v))
}

func (m *VM) toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case int64:
		return m.tf.Const(uint64(x), w)
	case bool:
		return m.tf.Bool(x)
	}
	panic(fmt.Sprintf("toTerm %T", v))
}

// simp turns constant terms back into concrete values.
func simpBool(t *Term) Value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

func simpInt(t *Term, signed bool) Value {
	if t.isConst() {
		if signed {
			return sx(t.val, t.w)
		}
		return int64(t.val)
	}
	return t
}

func (c *fnc) unop(x *ssa.UnOp) op {
	a := c.opd(x.X)
	d := c.regOf(x)
	switch x.Op {
	case token.MUL:
		c.m.checkGlobalUse(x.X)
		agg := isAggregate(x.Type())
		return func(m *VM, fr *Frame) {
			p, ok := a.get(fr.regs).(*Value)
			if !ok {
				panic(unsupported{"load of opaque pointer"})
			}
			if p == nil {
				m.nilDeref()
			}
			if m.par != nil {
				m.touchAll(p, false)
			}
			if agg {
				m.setReg(fr, d, copyVal(*p))
			} else {
				m.setReg(fr, d, *p)
			}
		}
	case token.NOT:
		return func(m *VM, fr *Frame) {
			switch v := a.get(fr.regs).(type) {
			case bool:
				m.setReg(fr, d, !v)
			case *Term:
				m.setReg(fr, d, simpBool(m.tf.Not(v)))
			}
		}
	case token.SUB, token.XOR:
		if isFloat(x.Type()) {
			return func(m *VM, fr *Frame) { m.setReg(fr, d, -a.get(fr.regs).(float64)) }
		}
		w, s := intInfo(x.Type())
		neg := x.Op == token.SUB
		return func(m *VM, fr *Frame) {
			switch v := a.get(fr.regs).(type) {
			case int64:
				if neg {
					m.setReg(fr, d, norm(-v, w, s))
				} else {
					m.setReg(fr, d, norm(^v, w, s))
				}
			case *Term:
				if neg {
					m.setReg(fr, d, m.tf.Un(ONeg, v))
				} else {
					m.setReg(fr, d, m.tf.Un(OBNot, v))
				}
			default:
				panic(unsupported{"unop"})
			}
		}
	case token.ARROW:
		return func(m *VM, fr *Frame) { panic(unsupported{"chan receive"}) }
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (c *fnc) binop(x *ssa.BinOp) op {
	a, b := c.opd(x.X), c.opd(x.Y)
	d := c.regOf(x)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neq := x.Op == token.NEQ
		if w, _ := intInfo(t); w != 0 {
			return func(m *VM, fr *Frame) {
				va, vb := a.get(fr.regs), b.get(fr.regs)
				ia, ok1 := va.(int64)
				ib, ok2 := vb.(int64)
				if ok1 && ok2 {
					m.setReg(fr, d, (ia == ib) != neq)
					return
				}
				e := m.tf.Eq(m.toTerm(va, w), m.toTerm(vb, w))
				if neq {
					e = m.tf.Not(e)
				}
				m.setReg(fr, d, simpBool(e))
			}
		}
		ty := x.Y.Type()
		return func(m *VM, fr *Frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			// mixed interface / concrete comparison
			ia, aIs := va.(Iface)
			ib, bIs := vb.(Iface)
			var e Value
			if aIs && !bIs {
				e = m.equal(ia, Iface{m.rtype(ty), vb})
			} else if bIs && !aIs {
				e = m.equal(Iface{m.rtype(t), va}, ib)
			} else {
				e = m.equal(va, vb)
			}
			if neq {
				e = m.notV(e)
			}
			m.setReg(fr, d, e)
		}
	}
	if isString(t) {
		return func(m *VM, fr *Frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			switch x.Op {
			case token.ADD:
				m.setReg(fr, d, strConcat(va, vb))
			case token.LSS:
				m.setReg(fr, d, m.strLess(va, vb, false))
			case token.LEQ:
				m.setReg(fr, d, m.strLess(va, vb, true))
			case token.GTR:
				m.setReg(fr, d, m.strLess(vb, va, false))
			case token.GEQ:
				m.setReg(fr, d, m.strLess(vb, va, true))
			default:
				panic(unsupported{"string op"})
			}
		}
	}
	if isFloat(t) {
		is32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		tok := x.Op
		return func(m *VM, fr *Frame) {
			p, q := a.get(fr.regs).(float64), b.get(fr.regs).(float64)
			var r Value
			switch tok {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				r = p < q
			case token.LEQ:
				r = p <= q
			case token.GTR:
				r = p > q
			case token.GEQ:
				r = p >= q
			}
			if f, ok := r.(float64); ok && is32 {
				r = f32(f)
			}
			m.setReg(fr, d, r)
		}
	}
	w, s := intInfo(t)
	if w == 0 {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			tok := x.Op
			return func(m *VM, fr *Frame) {
				p, q := m.toTerm(a.get(fr.regs), 0), m.toTerm(b.get(fr.regs), 0)
				if tok == token.AND || tok == token.LAND {
					m.setReg(fr, d, simpBool(m.tf.And(p, q)))
				} else {
					m.setReg(fr, d, simpBool(m.tf.Or(p, q)))
				}
			}
		}
		panic(unsupported{"binop on " + t.String()})
	}
	tok := x.Op
	if tok == token.SHL || tok == token.SHR {
		wy, sy := intInfo(x.Y.Type())
		return func(m *VM, fr *Frame) {
			va, vb := a.get(fr.regs), b.get(fr.regs)
			if ty, ok := vb.(*Term); ok && sy {
				if m.branch(m.tf.Bin(OSLT, ty, m.tf.Const(0, ty.w))) {
					m.rtError("negative shift amount")
				}
			}
			if iy, ok := vb.(int64); ok && sy && iy < 0 {
				m.rtError("negative shift amount")
			}
			ia, ok1 := va.(int64)
			ib, ok2 := vb.(int64)
			if ok1 && ok2 {
				m.setReg(fr, d, shiftConc(tok, ia, uint64(ib), w, s))
				return
			}
			x1 := m.toTerm(va, w)
			y1 := m.toTerm(vb, wy)
			// bring shift count to width w, saturating
			if y1.w > w {
				big := m.tf.Bin(OULE, m.tf.Const(uint64(w), y1.w), y1)
				y1 = m.tf.Ite(big, m.tf.Const(uint64(w), w), m.tf.Extract(y1, w))
			} else {
				y1 = m.tf.ZExt(y1, w)
			}
			o := OShl
			if tok == token.SHR {
				o = OLShr
				if s {
					o = OAShr
				}
			}
			m.setReg(fr, d, simpInt(m.tf.Bin(o, x1, y1), s))
		}
	}
	return func(m *VM, fr *Frame) {
		va, vb := a.get(fr.regs), b.get(fr.regs)
		ia, ok1 := va.(int64)
		ib, ok2 := vb.(int64)
		if ok1 && ok2 {
			m.setReg(fr, d, m.arith(tok, ia, ib, w, s))
			return
		}
		p, q := m.toTerm(va, w), m.toTerm(vb, w)
		tf := m.tf
		switch tok {
		case token.ADD:
			m.setReg(fr, d, simpInt(tf.Bin(OAdd, p, q), s))
		case token.SUB:
			m.setReg(fr, d, simpInt(tf.Bin(OSub, p, q), s))
		case token.MUL:
			m.setReg(fr, d, simpInt(tf.Bin(OMul, p, q), s))
		case token.QUO, token.REM:
			if m.branch(simpBool(tf.Eq(q, tf.Const(0, w)))) {
				m.rtError("integer divide by zero")
			}
			o := OUDiv
			switch {
			case tok == token.QUO && s:
				o = OSDiv
			case tok == token.REM && s:
				o = OSRem
			case tok == token.REM:
				o = OURem
			}
			m.setReg(fr, d, simpInt(tf.Bin(o, p, q), s))
		case token.AND:
			m.setReg(fr, d, simpInt(tf.Bin(OBAnd, p, q), s))
		case token.OR:
			m.setReg(fr, d, simpInt(tf.Bin(OBOr, p, q), s))
		case token.XOR:
			m.setReg(fr, d, simpInt(tf.Bin(OBXor, p, q), s))
		case token.AND_NOT:
			m.setReg(fr, d, simpInt(tf.Bin(OBAnd, p, tf.Un(OBNot, q)), s))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if tok == token.GTR || tok == token.GEQ {
				p, q = q, p
			}
			o := OULT
			eq := tok == token.LEQ || tok == token.GEQ
			switch {
			case s && eq:
				o = OSLE
			case s:
				o = OSLT
			case eq:
				o = OULE
			}
			m.setReg(fr, d, simpBool(tf.Bin(o, p, q)))
		default:
			panic(unsupported{"binop " + tok.String()})
		}
	}
}

func shiftConc(tok token.Token, x int64, y uint64, w uint8, s bool) Value {
	if tok == token.SHL {
		if y >= 64 {
			return int64(0)
		}
		return norm(x<<y, w, s)
	}
	if s {
		if y >= 64 {
			y = 63
		}
		return x >> y
	}
	if y >= 64 {
		return int64(0)
	}
	return norm(int64(uint64(x)>>y), w, s)
}

func (m *VM) arith(tok token.Token, a, b int64, w uint8, s bool) Value {
	switch tok {
	case token.ADD:
		return norm(a+b, w, s)
	case token.SUB:
		return norm(a-b, w, s)
	case token.MUL:
		return norm(a*b, w, s)
	case token.QUO, token.REM:
		if b == 0 {
			m.rtError("integer divide by zero")
		}
		if s {
			if b == -1 {
				if tok == token.QUO {
					return norm(-a, w, s)
				}
				return int64(0)
			}
			if tok == token.QUO {
				return norm(a/b, w, s)
			}
			return norm(a%b, w, s)
		}
		if tok == token.QUO {
			return norm(int64(uint64(a)/uint64(b)), w, s)
		}
		return norm(int64(uint64(a)%uint64(b)), w, s)
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return norm(a^b, w, s)
	case token.AND_NOT:
		return norm(a&^b, w, s)
	}
	var less, eq bool
	if s {
		less, eq = a < b, a == b
	} else {
		less, eq = uint64(a) < uint64(b), a == b
	}
	switch tok {
	case token.LSS:
		return less
	case token.LEQ:
		return less || eq
	case token.GTR:
		return !less && !eq
	case token.GEQ:
		return !less
	}
	panic(unsupported{"arith " + tok.String()})
}

func (m *VM) notV(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return simpBool(m.tf.Not(x))
	}
	panic("notV")
}

func (m *VM) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return simpBool(m.tf.And(a.(*Term), b.(*Term)))
}

// equal compares two values of identical static type.
func (m *VM) equal(a, b Value) Value {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Term:
			return simpBool(m.tf.Eq(y, m.tf.Const(uint64(x), y.w)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return simpBool(m.tf.Eq(y, m.tf.Bool(x)))
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			return simpBool(m.tf.Eq(x, y))
		case int64, bool:
			return m.equal(b, a)
		}
	case float64:
		return x == b.(float64)
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return m.strEq(a, b)
	case *SymStr:
		return m.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return false
		}
		return x == y
	case Slice: // only nil comparisons
		y := b.(Slice)
		if y == nil {
			return x == nil
		}
		return x == nil && y == nil
	case *Map:
		y := b.(*Map)
		return x == y
	case *Closure:
		y := b.(*Closure)
		return x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if x.T != y.T {
			return false
		}
		switch x.V.(type) {
		case Slice, *Map, *Closure:
			m.rtError("comparing uncomparable type " + x.T.name)
		}
		return m.equal(x.V, y.V)
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.equal(x[i], y[i]))
			if bb, ok := r.(bool); ok && !bb {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.equal(x[i], y[i]))
			if bb, ok := r.(bool); ok && !bb {
				return false
			}
		}
		return r
	case complex128:
		return x == b.(complex128)
	}
	panic(unsupported{fmt.Sprintf("equal %T %T", a, b)})
}

func (m *VM) strEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return false
	}
	n := strLen(a)
	var r Value = true
	for i := 0; i < n; i++ {
		r = m.andV(r, m.equal(strAt(a, i), strAt(b, i)))
		if bb, ok := r.(bool); ok && !bb {
			return false
		}
	}
	return r
}

// strLess compares lexicographically as one term.
func (m *VM) strLess(a, b Value, orEq bool) Value {
	if sa, ok := a.(string); ok {
		if sb, ok := b.(string); ok {
			if orEq {
				return sa <= sb
			}
			return sa < sb
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	var r *Term
	if la < lb || (la == lb && orEq) {
		r = m.tf.True
	} else {
		r = m.tf.False
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.toTerm(strAt(a, i), 8), m.toTerm(strAt(b, i), 8)
		lt := m.tf.Bin(OULT, x, y)
		eq := m.tf.Eq(x, y)
		r = m.tf.Or(lt, m.tf.And(eq, r))
	}
	return simpBool(r)
}

func (m *VM) strNext(it *StrIter) Value {
	n := strLen(it.s)
	i := it.i
	if i >= n {
		return Tuple{false, int64(0), int64(0)}
	}
	adv := func(k int) {
		m.undo(func() { it.i = i })
		it.i = i + k
	}
	b := strAt(it.s, i)
	switch x := b.(type) {
	case int64:
		if x < utf8.RuneSelf {
			adv(1)
			return Tuple{true, int64(i), x}
		}
	case *Term:
		if m.branch(m.tf.Bin(OULT, x, m.tf.Const(utf8.RuneSelf, 8))) {
			adv(1)
			return Tuple{true, int64(i), m.tf.ZExt(x, 32)}
		}
	}
	// multi byte: concretize up to 4 bytes
	var buf []byte
	for k := i; k < n && k < i+4; k++ {
		buf = append(buf, byte(m.concretize(strAt(it.s, k), 8, false)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	adv(sz)
	return Tuple{true, int64(i), int64(r)}
}

func (c *fnc) convert(x *ssa.Convert) op {
	v := c.opd(x.X)
	d := c.regOf(x)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fw, fs := intInfo(from)
	tw, ts := intInfo(to)
	switch {
	case fw != 0 && tw != 0:
		return func(m *VM, fr *Frame) {
			switch y := v.get(fr.regs).(type) {
			case int64:
				m.setReg(fr, d, norm(y, tw, ts))
			case *Term:
				var r *Term
				if tw <= fw {
					r = m.tf.Extract(y, tw)
				} else if fs {
					r = m.tf.SExt(y, tw)
				} else {
					r = m.tf.ZExt(y, tw)
				}
				m.setReg(fr, d, simpInt(r, ts))
			default:
				panic(unsupported{fmt.Sprintf("int convert of %T", y)})
			}
		}
	case fw != 0 && isFloat(to):
		is32 := to.(*types.Basic).Kind() == types.Float32
		return func(m *VM, fr *Frame) {
			i := m.concretize(v.get(fr.regs), fw, fs)
			var f float64
			if fs {
				f = float64(i)
			} else {
				f = float64(uint64(i))
			}
			if is32 {
				f = f32(f)
			}
			m.setReg(fr, d, f)
		}
	case isFloat(from) && tw != 0:
		return func(m *VM, fr *Frame) {
			f := v.get(fr.regs).(float64)
			var r int64
			if ts {
				r = int64(f)
			} else {
				r = int64(uint64(f))
			}
			m.setReg(fr, d, norm(r, tw, ts))
		}
	case isFloat(from) && isFloat(to):
		is32 := to.(*types.Basic).Kind() == types.Float32
		return func(m *VM, fr *Frame) {
			f := v.get(fr.regs).(float64)
			if is32 {
				f = f32(f)
			}
			m.setReg(fr, d, f)
		}
	case fw != 0 && isString(to):
		return func(m *VM, fr *Frame) {
			y := v.get(fr.regs)
			if t, ok := y.(*Term); ok {
				if m.branch(m.tf.Bin(OULT, t, m.tf.Const(utf8.RuneSelf, t.w))) {
					m.setReg(fr, d, mkStr([]Value{m.tf.Extract(t, 8)}))
					return
				}
			}
			i := m.concretize(y, fw, fs)
			if i > utf8.MaxRune || i < 0 {
				i = utf8.RuneError
			}
			m.setReg(fr, d, string(rune(i)))
		}
	case isString(from) && isString(to):
		return func(m *VM, fr *Frame) { m.setReg(fr, d, v.get(fr.regs)) }
	}
	if sl, ok := to.(*types.Slice); ok && isString(from) {
		ew, _ := intInfo(sl.Elem())
		if ew == 8 {
			return func(m *VM, fr *Frame) {
				b := strBytes(v.get(fr.regs))
				m.setReg(fr, d, Slice(append(make([]Value, 0, len(b)), b...)))
			}
		}
		return func(m *VM, fr *Frame) {
			s := v.get(fr.regs)
			r := make(Slice, 0, strLen(s))
			it := &StrIter{s: s}
			for {
				t := m.strNext(it).(Tuple)
				if !t[0].(bool) {
					break
				}
				r = append(r, t[2])
			}
			m.setReg(fr, d, r)
		}
	}
	if sl, ok := from.(*types.Slice); ok && isString(to) {
		ew, _ := intInfo(sl.Elem())
		if ew == 8 {
			return func(m *VM, fr *Frame) { m.setReg(fr, d, mkStr(v.get(fr.regs).(Slice))) }
		}
		return func(m *VM, fr *Frame) {
			var out Value = ""
			for _, e := range v.get(fr.regs).(Slice) {
				if t, ok := e.(*Term); ok {
					if m.branch(m.tf.Bin(OULT, t, m.tf.Const(utf8.RuneSelf, t.w))) {
						out = strConcat(out, mkStr([]Value{m.tf.Extract(t, 8)}))
						continue
					}
				}
				out = strConcat(out, string(rune(m.concretize(e, 32, true))))
			}
			m.setReg(fr, d, out)
		}
	}
	// pointer <-> unsafe.Pointer pass-through
	_, fp := from.(*types.Pointer)
	fb, fu := from.(*types.Basic)
	_, tp := to.(*types.Pointer)
	tb, tu := to.(*types.Basic)
	if (fp || fu && fb.Kind() == types.UnsafePointer) && (tp || tu && tb.Kind() == types.UnsafePointer) {
		return func(m *VM, fr *Frame) { m.setReg(fr, d, v.get(fr.regs)) }
	}
	msg := "convert " + x.X.Type().String() + " -> " + x.Type().String()
	return func(m *VM, fr *Frame) { panic(unsupported{msg}) }
}

func (c *fnc) typeAssert(x *ssa.TypeAssert) op {
	v := c.opd(x.X)
	d := c.regOf(x)
	at := x.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	var rt *RType
	if !toIface {
		rt = c.m.rtype(at)
	}
	commaOk := x.CommaOk
	name := types.TypeString(at, func(p *types.Package) string { return p.Name() })
	z := zero(at)
	srcName := types.TypeString(x.X.Type(), func(p *types.Package) string { return p.Name() })
	return func(m *VM, fr *Frame) {
		i := v.get(fr.regs).(Iface)
		ok := false
		var r Value
		if i.T != nil {
			if toIface {
				ok = m.implements(i.T, at)
				r = i
			} else {
				ok = i.T == rt
				r = i.V
			}
		}
		if commaOk {
			if !ok {
				r = copyVal(z)
			}
			m.setReg(fr, d, Tuple{r, ok})
			return
		}
		if !ok {
			dyn := "nil"
			if i.T != nil {
				dyn = i.T.name
			}
			m.rtError("interface conversion: " + srcName + " is " + dyn + ", not " + name)
		}
		m.setReg(fr, d, r)
	}
}

// callTarget compiles the pieces of a call.
type callee struct {
	fn     *Closure     // static
	dyn    opd          // dynamic closure
	meth   *types.Func  // interface method
	recv   opd
	bi     *ssa.Builtin
	biArgs []types.Type
	biRes  types.Type
}

func (c *fnc) callTarget(cc *ssa.CallCommon) ([]opd, *callee) {
	args := c.opds(cc.Args)
	t := &callee{}
	if cc.IsInvoke() {
		t.meth = cc.Method
		t.recv = c.opd(cc.Value)
		return args, t
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		t.fn = &Closure{Fn: c.m.getFunc(f)}
	case *ssa.Builtin:
		t.bi = f
		for _, a := range cc.Args {
			t.biArgs = append(t.biArgs, a.Type())
		}
	default:
		t.dyn = c.opd(cc.Value)
	}
	return args, t
}

func (m *VM) evalCall(fr *Frame, args []opd, t *callee) ([]Value, *Closure) {
	if t.meth != nil {
		i := t.recv.get(fr.regs).(Iface)
		if i.T == nil {
			m.nilDeref()
		}
		f := m.findMethod(i.T, t.meth)
		as := make([]Value, len(args)+1)
		as[0] = copyVal(i.V)
		for k := range args {
			as[k+1] = args[k].get(fr.regs)
		}
		return as, &Closure{Fn: f}
	}
	as := make([]Value, len(args))
	for k := range args {
		as[k] = args[k].get(fr.regs)
	}
	if t.fn != nil {
		return as, t.fn
	}
	if t.bi != nil {
		bi := t.bi
		ty := t.biArgs
		return as, &Closure{Fn: &Func{name: "builtin " + bi.Name(), compiled: true, intr: func(m *VM, fr *Frame, args []Value, dst int32) {
			m.builtin(fr, bi, args, ty, nil, dst)
		}}}
	}
	cl, ok := t.dyn.get(fr.regs).(*Closure)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T", t.dyn.get(fr.regs))})
	}
	return as, cl
}

func (c *fnc) call(cc *ssa.CallCommon, d int32, rt types.Type) op {
	args, t := c.callTarget(cc)
	if t.bi != nil {
		bi := t.bi
		ty := t.biArgs
		return func(m *VM, fr *Frame) {
			as := make([]Value, len(args))
			for k := range args {
				as[k] = args[k].get(fr.regs)
			}
			m.builtin(fr, bi, as, ty, rt, d)
		}
	}
	if t.fn != nil {
		f := t.fn.Fn
		return func(m *VM, fr *Frame) {
			if !f.compiled {
				m.ensure(f)
			}
			if f.intr != nil {
				as := make([]Value, len(args))
				for k := range args {
					as[k] = args[k].get(fr.regs)
				}
				f.intr(m, fr, as, d)
				return
			}
			regs := make([]Value, f.nregs)
			for k := range args {
				regs[k] = args[k].get(fr.regs)
			}
			m.fr = &Frame{fn: f, regs: regs, caller: fr, dst: d, stamp: m.seq}
		}
	}
	return func(m *VM, fr *Frame) {
		as, cl := m.evalCall(fr, args, t)
		if cl == nil {
			m.nilDeref()
		}
		m.invoke(fr, cl, as, d)
	}
}

func (m *VM) builtin(fr *Frame, b *ssa.Builtin, args []Value, ty []types.Type, rt types.Type, d int32) {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			m.setReg(fr, d, int64(strLen(x)))
		case Slice:
			m.setReg(fr, d, int64(len(x)))
		case Array:
			m.setReg(fr, d, int64(len(x)))
		case *Value:
			m.setReg(fr, d, int64(len((*x).(Array))))
		case *Map:
			if x == nil {
				m.setReg(fr, d, int64(0))
			} else {
				if m.par != nil {
					m.touchMap(x, false)
				}
				m.setReg(fr, d, int64(x.n))
			}
		default:
			panic(unsupported{fmt.Sprintf("len %T", x)})
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			m.setReg(fr, d, int64(cap(x)))
		case Array:
			m.setReg(fr, d, int64(len(x)))
		case *Value:
			m.setReg(fr, d, int64(len((*x).(Array))))
		default:
			panic(unsupported{"cap"})
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		}
		et := ty[0].Underlying().(*types.Slice).Elem()
		m.setReg(fr, d, m.appendSlice(s, add, et))
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		}
		n := min(len(dst), len(src))
		if m.par != nil {
			if y, ok := args[1].(Slice); ok {
				m.touchSlice(y[:n], false)
			}
			m.touchSlice(dst[:n], true)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.storeVal(&dst[i], tmp[i])
		}
		m.setReg(fr, d, int64(n))
	case "delete":
		mp := args[0].(*Map)
		if mp != nil {
			if m.par != nil {
				m.touchMap(mp, true)
			}
			m.mapDelete(mp, args[1], ty[0].Underlying().(*types.Map).Key())
		}
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEnt(nil), x.ents...) {
					if e.live {
						m.mapRemove(x, e)
					}
				}
			}
		case Slice:
			et := ty[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				m.storeVal(&x[i], zero(et))
			}
		}
	case "print", "println":
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			r = m.minmax(r, y, ty[0], b.Name() == "min")
		}
		m.setReg(fr, d, r)
	case "recover":
		p := fr.deferOf
		if p != nil && p.unwind && p.panic != nil && !p.panic.recovered {
			p.panic.recovered = true
			m.setReg(fr, d, p.panic.val)
		} else {
			m.setReg(fr, d, Iface{})
		}
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Value)
		if ok && p == nil {
			m.rtError("value method called using nil pointer")
		}
		m.setReg(fr, d, args[0])
	case "ssa:deferstack":
		m.setReg(fr, d, &Opaque{"deferstack", fr})
	case "String": // unsafe.String
		p := args[0]
		_ = p
		panic(unsupported{"unsafe.String"})
	default:
		panic(unsupported{"builtin " + b.Name()})
	}
}

func (m *VM) minmax(a, b Value, t types.Type, mn bool) Value {
	if x, ok := a.(float64); ok {
		if mn {
			return math.Min(x, b.(float64))
		}
		return math.Max(x, b.(float64))
	}
	if isString(t) {
		l := m.strLess(a, b, false)
		if m.branch(l) == mn {
			return a
		}
		return b
	}
	w, s := intInfo(t)
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		less := x < y
		if !s {
			less = uint64(x) < uint64(y)
		}
		if less == mn {
			return a
		}
		return b
	}
	p, q := m.toTerm(a, w), m.toTerm(b, w)
	o := OULT
	if s {
		o = OSLT
	}
	lt := m.tf.Bin(o, p, q)
	if mn {
		return simpInt(m.tf.Ite(lt, p, q), s)
	}
	return simpInt(m.tf.Ite(lt, q, p), s)
}

func (m *VM) appendSlice(s Slice, add []Value, et types.Type) Slice {
	n := len(s) + len(add)
	agg := isAggregate(et)
	if len(add) == 0 {
		return s
	}
	if m.par != nil && n > cap(s) {
		m.touchSlice(s, false)
	}
	if n <= cap(s) {
		r := s[:n]
		if m.par != nil {
			m.touchSlice(r[len(s):], true)
		}
		if agg {
			// the spare element may be aliased as an aggregate: replace its content
			for i, v := range add {
				m.storeVal(&r[len(s)+i], copyVal(v))
			}
		} else {
			// source may overlap: read first
			tmp := append([]Value(nil), add...)
			for i, v := range tmp {
				m.set(&r[len(s)+i], v)
			}
		}
		return r
	}
	es := int(m.ld.sizes.Sizeof(et))
	k := growCap(n, cap(s), es, noPointers(et))
	if k < n {
		k = n
	}
	r := make(Slice, k)
	if agg {
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		for i := n; i < k; i++ {
			r[i] = zero(et)
		}
	} else {
		copy(r, s)
		copy(r[len(s):], add)
		z := zero(et)
		for i := n; i < k; i++ {
			r[i] = z
		}
	}
	return r[:n]
}

// ---- maps

func (m *VM) mapFind(mp *Map, k Value, kt types.Type) *mapEnt {
	if mp == nil {
		return nil
	}
	h, conc := hkey(k)
	if conc {
		if e := mp.idx[h]; e != nil {
			return e
		}
		if mp.sym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.live {
			continue
		}
		if conc {
			if _, ok := hkey(e.k); ok {
				continue
			}
		}
		if m.branch(m.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *VM) mapSet(mp *Map, k, v Value, kt types.Type) {
	if e := m.mapFind(mp, k, kt); e != nil {
		m.set(&e.v, v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: v, live: true}
	h, conc := hkey(k)
	old := mp.ents
	m.undo(func() {
		mp.ents = old
		mp.n--
		if conc {
			delete(mp.idx, h)
		} else {
			mp.sym--
		}
	})
	if m.trailing {
		mp.ents = append(old[:len(old):len(old)], e)
	} else {
		mp.ents = append(old, e)
	}
	mp.n++
	if conc {
		mp.idx[h] = e
	} else {
		mp.sym++
	}
}

func (m *VM) mapRemove(mp *Map, e *mapEnt) {
	h, conc := hkey(e.k)
	e.live = false
	mp.n--
	if conc {
		delete(mp.idx, h)
	} else {
		mp.sym--
	}
	m.undo(func() {
		e.live = true
		mp.n++
		if conc {
			mp.idx[h] = e
		} else {
			mp.sym++
		}
	})
}

func (m *VM) mapDelete(mp *Map, k Value, kt types.Type) {
	if e := m.mapFind(mp, k, kt); e != nil {
		m.mapRemove(mp, e)
	}
}

func (m *VM) mapNext(it *MapIter, kz, vz Value) Value {
	if it.m == nil {
		return Tuple{false, kz, vz}
	}
	if m.par != nil {
		m.touchMap(it.m, false)
	}
	if !it.any {
		i := it.i
		for i < len(it.m.ents) && !it.m.ents[i].live {
			i++
		}
		old := it.i
		m.undo(func() { it.i = old })
		if i >= len(it.m.ents) {
			it.i = i
			return Tuple{false, kz, vz}
		}
		it.i = i + 1
		e := it.m.ents[i]
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	var rem []int
	for i, e := range it.m.ents {
		if !e.live {
			continue
		}
		seen := false
		for _, j := range it.done {
			if j == i {
				seen = true
			}
		}
		if !seen {
			rem = append(rem, i)
		}
	}
	if len(rem) == 0 {
		return Tuple{false, kz, vz}
	}
	j := rem[m.chooseFree(len(rem))]
	old := it.done
	m.undo(func() { it.done = old })
	it.done = append(append([]int(nil), old...), j)
	e := it.m.ents[j]
	return Tuple{true, copyVal(e.k), copyVal(e.v)}
}

func (m *VM) checkGlobalUse(v ssa.Value) {
	g, ok := v.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return
	}
	if !m.ld.initAllowed(g.Pkg.Pkg.Path()) {
		if m.ld.globalOK(g) {
			return
		}
		panic(unsupported{"global of uninitialised package " + g.String()})
	}
}

var _ = strings.Contains
