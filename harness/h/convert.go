package h

import (
	"math"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_ConvertEcore"] = entry{Setup_ConvertEcore, H_ConvertEcore}
	All["H_ConvertDynamic"] = entry{Setup_ConvertDynamic, H_ConvertDynamic}
	All["H_ConvertParse"] = entry{Setup_ConvertParse, H_ConvertParse}
	All["H_ConvertEnum"] = entry{Setup_ConvertEnum, H_ConvertEnum}
	All["H_ConvertDate"] = entry{Setup_ConvertDate, H_ConvertDate}
	All["H_DefaultValue"] = entry{Setup_DefaultValue, H_DefaultValue}
}

var cvPkg ecore.EPackage
var cvFac ecore.EFactory
var cvTypes []ecore.EDataType
var cvKinds []string
var cvEnum ecore.EEnum

// kinds of values
const (
	kF64 = iota
	kF32
	kInt
	kU64
	kI64
	kI32
	kI16
	kI8
	kBool
	kStr
	kByte
	kBytes
)

var dynNames = []struct {
	name string
	kind int
}{
	{"float64", kF64}, {"java.lang.Double", kF64}, {"double", kF64},
	{"float32", kF32}, {"java.lang.Float", kF32}, {"float", kF32},
	{"int", kInt}, {"java.lang.Integer", kInt},
	{"uint64", kU64}, {"com.google.common.primitives.UnsignedLong", kU64},
	{"int64", kI64}, {"java.lang.Long", kI64}, {"java.math.BigInteger", kI64}, {"long", kI64},
	{"int32", kI32},
	{"int16", kI16}, {"java.lang.Short", kI16}, {"short", kI16},
	{"int8", kI8},
	{"bool", kBool}, {"java.lang.Boolean", kBool}, {"boolean", kBool},
	{"string", kStr}, {"java.lang.String", kStr},
	{"byte[]", kBytes}, {"[]byte", kBytes},
}

type ecoreType struct {
	t    ecore.EDataType
	kind int
}

func ecoreTypes() []ecoreType {
	p := ecore.GetPackage()
	return []ecoreType{
		{p.GetEBigDecimal(), kF64}, {p.GetEDouble(), kF64}, {p.GetEDoubleObject(), kF64},
		{p.GetEFloat(), kF32}, {p.GetEFloatObject(), kF32},
		{p.GetEInt(), kInt}, {p.GetEIntegerObject(), kInt}, {p.GetELongObject(), kInt},
		{p.GetEBigInteger(), kI64}, {p.GetELong(), kI64},
		{p.GetEShort(), kI16}, {p.GetEShortObject(), kI16},
		{p.GetEBoolean(), kBool}, {p.GetEBooleanObject(), kBool},
		{p.GetEString(), kStr},
		{p.GetEByte(), kByte}, {p.GetEByteObject(), kByte}, {p.GetEChar(), kByte}, {p.GetECharacterObject(), kByte},
		{p.GetEByteArray(), kBytes},
	}
}

// aroundLimits is a value within w of one of the notable values of a signed type of n bits.
func aroundLimits(n int, w int) int64 {
	lim := int64(1)<<(n-1) - 1
	z := intn("zone", 4)
	d := int64(nd.Int("d", 0, w))
	if z >= 2 {
		nd.Assume(d < 3)
		d = int64(nd.Conc(int(d)))
	}
	switch z {
	case 0:
		return d
	case 1:
		return -d
	case 2:
		return lim - d
	default:
		return -lim - 1 + d
	}
}

var someF64 = []float64{0, 1, -1, 0.5, -2.25, 0.1, 1e21, 1e-7, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64}
var someF32 = []float32{0, 1, -1, 0.5, -2.25, 0.1, 1e21, 1e-7, 16777216, math.MaxFloat32, math.SmallestNonzeroFloat32, -math.MaxFloat32}

func valueOfKind(k int) any {
	w := nd.Param("w")
	switch k {
	case kF64:
		return someF64[intn("f", len(someF64))]
	case kF32:
		return someF32[intn("f", len(someF32))]
	case kInt:
		return int(aroundLimits(64, w))
	case kU64:
		d := uint64(nd.Int("d", 0, w))
		if intn("zone", 2) == 0 {
			return d
		}
		nd.Assume(d < 3)
		d = uint64(nd.Conc(int(d)))
		return math.MaxUint64 - d
	case kI64:
		return aroundLimits(64, w)
	case kI32:
		return int32(aroundLimits(32, w))
	case kI16:
		return int16(aroundLimits(16, w))
	case kI8:
		return int8(aroundLimits(8, w))
	case kBool:
		return nd.Bool("b")
	case kByte:
		return nd.Byte("byte")
	case kBytes:
		return []byte(nd.Str("bytes", intn("len", 4), ""))
	default:
		return nd.Str("s", intn("len", 4), "")
	}
}

func sameValue(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	return a == b
}

func roundTrip(fac ecore.EFactory, t ecore.EDataType, v any) {
	text := ""
	nd.Check(!try(func() { text = fac.ConvertToString(t, v) }), "a value of a data type is converted to text")
	var back any
	nd.Check(!try(func() { back = fac.CreateFromString(t, text) }), "the text of a value is converted to a value")
	nd.Check(sameValue(v, back), "a value converted to text and back is the same value")
	nd.Observe(text)
}

func Setup_ConvertEcore() {}

// H_ConvertEcore: values of the data types of the ecore package.
func H_ConvertEcore() {
	ts := ecoreTypes()
	t := ts[intn("type", len(ts))]
	roundTrip(ecore.GetFactory(), t.t, valueOfKind(t.kind))
}

func Setup_ConvertDynamic() {
	f := ecore.GetFactory()
	cvPkg = f.CreateEPackage()
	cvPkg.SetNsURI("http://t")
	cvTypes = nil
	for i := 0; i < 2*len(dynNames); i++ {
		t := f.CreateEDataType()
		t.SetName("T" + string([]byte{byte('A' + i%26), byte('A' + i/26)}))
		if n := dynNames[i%len(dynNames)].name; i < len(dynNames) {
			t.SetInstanceTypeName(n)
		} else {
			t.SetInstanceTypeName("org.example.Other")
			a := f.CreateEAnnotation()
			a.SetSource("http://net.masagroup/soft/2019/GenGo")
			a.GetDetails().Put("instanceTypeName", n)
			t.GetEAnnotations().Add(a)
		}
		cvPkg.GetEClassifiers().Add(t)
		cvTypes = append(cvTypes, t)
	}
	cvFac = cvPkg.GetEFactoryInstance()
}

// H_ConvertDynamic: values of the data types of a package without generated code.
func H_ConvertDynamic() {
	i := intn("type", len(cvTypes))
	t, k := cvTypes[i], dynNames[i%len(dynNames)].kind
	if i < len(dynNames) && nd.Bool("early") {
		// the type was looked at before it was complete
		t.SetInstanceTypeName("")
		nd.Check(t.GetDefaultValue() == nil, "a data type without instance type has no default value")
		t.SetInstanceTypeName(dynNames[i].name)
	}
	// the default value of the type is one of its values
	zero := []any{float64(0), float32(0), int(0), uint64(0), int64(0), int32(0), int16(0), int8(0), false, ""}
	if k < len(zero) {
		nd.Check(t.GetDefaultValue() == zero[k], "the default value of a data type is the zero of its instance type")
	}
	roundTrip(cvFac, t, valueOfKind(k))
}

func Setup_ConvertParse() { Setup_ConvertDynamic() }

// H_ConvertParse: decimal texts.
func H_ConvertParse() {
	n := nd.Param("digits")
	s := nd.Str("s", n, "0123456789")
	v := int64(0)
	for i := 0; i < n; i++ {
		v = v*10 + int64(s[i]-'0')
	}
	if intn("neg", 2) == 1 {
		s = "-" + s
		v = -v
	}
	var fac ecore.EFactory
	var t ecore.EDataType
	k := 0
	if intn("ecore", 2) == 1 {
		ts := ecoreTypes()
		i := intn("type", len(ts))
		t, k, fac = ts[i].t, ts[i].kind, ecore.GetFactory()
	} else {
		i := intn("type", len(dynNames))
		t, k, fac = cvTypes[i], dynNames[i].kind, cvFac
	}
	var want any
	switch k {
	case kInt:
		want = int(v)
	case kU64:
		nd.Assume(v >= 0 && s[0] != '-')
		want = uint64(v)
	case kI64:
		want = v
	case kI32:
		want = int32(v)
	case kI16:
		want = int16(v)
	case kI8:
		want = int8(v)
	case kStr:
		want = s
	case kBytes:
		want = []byte(s)
	default:
		return
	}
	nd.Check(sameValue(fac.CreateFromString(t, s), want), "a text is converted to the value it denotes")
}

func Setup_ConvertEnum() {
	f := ecore.GetFactory()
	cvPkg = f.CreateEPackage()
	cvPkg.SetNsURI("http://t")
	cvEnum = f.CreateEEnum()
	cvEnum.SetName("E")
	cvPkg.GetEClassifiers().Add(cvEnum)
	cvFac = cvPkg.GetEFactoryInstance()
}

// H_ConvertEnum: enumerations with distinct literals and values.
func H_ConvertEnum() {
	n := intn("n", nd.Param("n")) + 1
	names := []string{}
	lits := []string{}
	vals := []int{}
	for i := 0; i < n; i++ {
		l := ecore.GetFactory().CreateEEnumLiteral()
		name := nd.Str("name", 1, "ab0")
		lit := nd.Str("lit", intn("len", 3), "ab0 ")
		val := nd.Int("val", -3, 3)
		byAdd := intn("how", 2) == 0
		if byAdd {
			cvEnum.GetELiterals().Add(l)
		}
		l.SetName(name)
		l.SetLiteral(lit)
		l.SetValue(val)
		if !byAdd {
			cvEnum.GetELiterals().Insert(0, l)
		}
		if lit == "" {
			lit = name
		}
		for j := range names {
			nd.Assume(lits[j] != lit)
			nd.Assume(vals[j] != val)
			nd.Assume(names[j] != name)
		}
		if byAdd {
			names, lits, vals = append(names, name), append(lits, lit), append(vals, val)
		} else {
			names, lits, vals = append([]string{name}, names...), append([]string{lit}, lits...), append([]int{val}, vals...)
		}
	}
	nd.Check(cvEnum.GetDefaultValue() == any(vals[0]), "the default value of an enumeration is its first literal")
	i := intn("i", n)
	text := ""
	nd.Check(!try(func() { text = cvFac.ConvertToString(cvEnum, vals[i]) }), "the value of a literal is converted to text")
	nd.Check(text == lits[i], "the value of a literal is converted to the literal")
	nd.Check(cvFac.CreateFromString(cvEnum, text) == any(vals[i]), "a literal is converted to its value")
	nd.Check(cvEnum.GetEEnumLiteralByName(names[i]) == cvEnum.GetELiterals().Get(i), "literal by name")
	nd.Check(cvEnum.GetEEnumLiteralByLiteral(lits[i]) == cvEnum.GetELiterals().Get(i), "literal by literal")
	nd.Check(cvEnum.GetEEnumLiteralByValue(vals[i]) == cvEnum.GetELiterals().Get(i), "literal by value")
	// what is not a literal is refused
	other := nd.Str("other", intn("olen", 3), "ab0 ")
	known := false
	for _, l := range lits {
		known = nd.Or(known, l == other)
	}
	if !known {
		nd.Check(try(func() { cvFac.CreateFromString(cvEnum, other) }), "a text that is no literal is refused")
	}
}

func Setup_ConvertDate() {}

// H_ConvertDate: dates in several time zones.
func H_ConvertDate() {
	zone := []int{0, 3600, -5*3600 - 1800}[intn("zone", 3)]
	day := []int{1, 28, 31}[intn("day", 3)]
	hour := []int{0, 12, 23}[intn("hour", 3)]
	ms := []int{0, 5, 120, 999}[intn("ms", 4)]
	year := []int{1, 1969, 2024, 9998}[intn("year", 4)]
	loc := time.UTC
	if zone != 0 {
		loc = time.FixedZone("z", zone)
	}
	d := time.Date(year, time.December, day, hour, 59, 7, ms*1000000, loc)
	t := ecore.GetPackage().GetEDate()
	text := ""
	nd.Check(!try(func() { text = ecore.GetFactory().ConvertToString(t, &d) }), "a date is converted to text")
	back, _ := ecore.GetFactory().CreateFromString(t, text).(*time.Time)
	nd.Check(back != nil, "a date is created from the text of a date")
	nd.Check(back.Equal(d), "a date converted to text and back is the same instant")
	nd.Observe(text)
}

// The factory of H_DefaultValue: texts of strings are prefixed by the name of the factory.
type tagFactory struct {
	ecore.EFactoryExt
	tag string
}

func newTagFactory(tag string) *tagFactory {
	f := &tagFactory{tag: tag}
	f.SetInterfaces(f)
	f.Initialize()
	return f
}

func (f *tagFactory) CreateFromString(t ecore.EDataType, s string) any {
	v := f.EFactoryExt.CreateFromString(t, s)
	if x, ok := v.(string); ok {
		return f.tag + x
	}
	return v
}

var dvAttr ecore.EAttribute
var dvClass ecore.EClass
var dvTypes []ecore.EDataType

func Setup_DefaultValue() {
	f := ecore.GetFactory()
	cvPkg = f.CreateEPackage()
	cvPkg.SetNsURI("http://t")
	dvTypes = nil
	for _, n := range []string{"int", "java.lang.String", "boolean"} {
		t := f.CreateEDataType()
		t.SetName(n)
		t.SetInstanceTypeName(n)
		t.SetSerializable(true)
		cvPkg.GetEClassifiers().Add(t)
		dvTypes = append(dvTypes, t)
	}
	cvEnum = f.CreateEEnum()
	cvEnum.SetName("E")
	cvEnum.SetSerializable(true)
	for i, n := range []string{"true", "7"} {
		l := f.CreateEEnumLiteral()
		l.SetName(n)
		l.SetLiteral(n)
		l.SetValue(i + 4)
		cvEnum.GetELiterals().Add(l)
	}
	cvPkg.GetEClassifiers().Add(cvEnum)
	dvTypes = append(dvTypes, cvEnum)
	other := f.CreateEDataType()
	other.SetName("other")
	other.SetInstanceTypeName("org.example.Other")
	other.SetSerializable(false)
	cvPkg.GetEClassifiers().Add(other)
	dvTypes = append(dvTypes, other)
	dvClass = f.CreateEClass()
	dvClass.SetName("C")
	dvAttr = f.CreateEAttribute()
	dvAttr.SetName("a")
	dvAttr.SetEType(dvTypes[0])
	dvClass.GetEStructuralFeatures().Add(dvAttr)
	cvPkg.GetEClassifiers().Add(dvClass)
	cvFac = cvPkg.GetEFactoryInstance()
}

// H_DefaultValue: the default value of an attribute follows its literal, its type, its bound and the factory.
func H_DefaultValue() {
	typ, lit, many, tag := 0, "", false, ""
	steps := nd.Param("steps")
	parse := func() any {
		switch typ {
		case 0:
			if lit == "7" {
				return 7
			}
			return 0
		case 1:
			return tag + lit
		case 2:
			return lit == "true"
		case 4:
			return nil
		default:
			if lit == "true" {
				return 4
			}
			return 5
		}
	}
	check := func() {
		var want any
		switch {
		case lit != "":
			want = parse()
		case many:
		default:
			want = []any{0, "", false, 4, nil}[typ]
		}
		nd.Check(dvAttr.GetDefaultValue() == want, "the default value of an attribute is that of its literal, else of its type")
		if !many {
			o := cvPkg.GetEFactoryInstance().Create(dvClass)
			nd.Check(o.EGet(dvAttr) == want, "an object shows the default value of an attribute that is not set")
			nd.Check(!o.EIsSet(dvAttr), "an attribute of a new object is not set")
		}
	}
	look := nd.Bool("look")
	for s := 0; s < steps; s++ {
		if look {
			check()
		}
		switch intn("op", 5) {
		case 0:
			lit = []string{"", "7", "true"}[intn("lit", 3)]
			dvAttr.SetDefaultValueLiteral(lit)
		case 1:
			typ = intn("type", len(dvTypes))
			dvAttr.SetEType(dvTypes[typ])
		case 2:
			many = !many
			if many {
				dvAttr.SetUpperBound(-1)
			} else {
				dvAttr.SetUpperBound(1)
			}
		case 3:
			tag = "x"
			cvPkg.SetEFactoryInstance(newTagFactory(tag))
		default:
			if typ == 4 {
				continue
			}
			v := []any{7, "7", true, 4}[typ]
			lit = []string{"7", "7", "true", "true"}[typ]
			dvAttr.SetDefaultValue(v)
		}
	}
	check()
	nd.Observe(typ, lit, many, tag)
}
