package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_SetUnset"] = entry{Setup_SetUnset, H_SetUnset}
	All["H_Defaults"] = entry{Setup_Defaults, H_Defaults}
	All["H_Reflect"] = entry{Setup_Reflect, H_Reflect}
}

type suMM struct {
	pkg   ecore.EPackage
	enum  ecore.EEnum
	types []ecore.EDataType // string, int, bool, enum, a type without value
	node  ecore.EClass
}

var su *suMM

// enumLits are the literals of the test enumeration; the name, the literal
// text and the value of a literal are all different.
var enumLits = []struct {
	name, lit string
	val       int
}{{"RED", "r", 5}, {"GREEN", "g", 0}, {"BLUE", "b", 7}}

func buildSU() *suMM {
	f := ecore.GetFactory()
	m := &suMM{}
	m.pkg = f.CreateEPackage()
	m.pkg.SetName("su")
	m.pkg.SetNsURI("http://su")
	m.enum = f.CreateEEnum()
	m.enum.SetName("Color")
	for _, l := range enumLits {
		e := f.CreateEEnumLiteral()
		e.SetName(l.name)
		e.SetLiteral(l.lit)
		e.SetValue(l.val)
		m.enum.GetELiterals().Add(e)
	}
	m.pkg.GetEClassifiers().Add(m.enum)
	for _, t := range []string{"string", "int", "bool", ""} {
		d := f.CreateEDataType()
		d.SetName("T" + t)
		if t != "" {
			d.SetInstanceTypeName(t)
		}
		m.pkg.GetEClassifiers().Add(d)
		m.types = append(m.types, d)
	}
	m.types = []ecore.EDataType{m.types[0], m.types[1], m.types[2], m.enum, m.types[3]}
	m.node = f.CreateEClass()
	m.node.SetName("Node")
	m.pkg.GetEClassifiers().Add(m.node)
	fac := f.CreateEFactory()
	m.pkg.SetEFactoryInstance(fac)
	return m
}

func Setup_SetUnset() { su = buildSU(); mm = buildMM(false, false) }
func Setup_Defaults() { su = buildSU() }
func Setup_Reflect()  { ecore.GetPackage() }

// defaultOf is the default of a feature of type t with literal lit.
func defaultOf(t int, lit string) any {
	switch t {
	case 0:
		return lit
	case 1:
		n := 0
		for i := 0; i < len(lit); i++ {
			n = n*10 + int(lit[i]-'0')
		}
		return n
	case 2:
		return lit == "true"
	case 3:
		if lit == "" {
			return enumLits[0].val
		}
		for _, l := range enumLits {
			if l.lit == lit {
				return l.val
			}
		}
	}
	return nil
}

var litsOf = [][]string{{"", "12"}, {"", "12"}, {"", "true"}, {"", "g"}, {""}}

func valueOf(t int, name string) any {
	switch t {
	case 0:
		return nd.Str(name, intn("len", 3), "ab")
	case 1:
		return nd.Int(name, -3, 3)
	case 2:
		return nd.Bool(name)
	case 3:
		return enumLits[intn(name, 3)].val
	}
	return []any{1, "x"}[intn(name, 2)]
}

func newKind(kind int, c ecore.EClass) ecore.EObject {
	switch kind {
	case 0:
		o := ecore.NewDynamicEObjectImpl()
		o.SetEClass(c)
		return o
	case 1:
		o := ecore.NewReflectiveEObjectImpl()
		o.SetEClass(c)
		return o
	case 2:
		return newCompact(c)
	}
	o := ecore.NewEStoreEObjectImpl(kind == 4)
	o.SetEClass(c)
	return o
}

// H_SetUnset: attributes of an instance hold what was set last, or their default.
func H_SetUnset() {
	f := ecore.GetFactory()
	var as []ecore.EAttribute
	var ts []int
	var defs []any
	var many, unset []bool
	for i := 0; i < 2; i++ {
		t := intn("type", len(su.types))
		a := f.CreateEAttribute()
		a.SetName([]string{"a0", "a1"}[i])
		a.SetEType(su.types[t])
		m := intn("many", 2) == 1
		lit := ""
		if m {
			a.SetUpperBound(-1)
			a.SetUnique(intn("unique", 2) == 1)
		} else {
			lit = litsOf[t][intn("lit", len(litsOf[t]))]
			a.SetDefaultValueLiteral(lit)
		}
		u := intn("unsettable", 2) == 1
		a.SetUnsettable(u)
		su.node.GetEStructuralFeatures().Add(a)
		as = append(as, a)
		ts = append(ts, t)
		many = append(many, m)
		unset = append(unset, u)
		defs = append(defs, defaultOf(t, lit))
		if nd.Param("attrs") == 1 {
			break
		}
	}
	o := newKind(intn("impl", nd.Param("impls")), su.node)
	vals := make([]any, len(as))
	isSet := make([]bool, len(as))
	lists := make([][]any, len(as))
	for s := 0; s < nd.Param("steps"); s++ {
		i := intn("i", len(as))
		a := as[i]
		if many[i] {
			l := o.EGet(a).(ecore.EList)
			switch intn("mop", 4) {
			case 0:
				v := valueOf(ts[i], "v")
				nd.Assume(ts[i] != 4)
				if !a.IsUnique() || indexOf(lists[i], v) < 0 {
					lists[i] = append(cloneS(lists[i]), v)
				}
				l.Add(v)
			case 1:
				o.EUnset(a)
				lists[i] = nil
			case 2:
				v := valueOf(ts[i], "v")
				nd.Assume(ts[i] != 4)
				o.ESet(a, ecore.NewImmutableEList([]any{v}))
				lists[i] = []any{v}
			case 3:
				nd.Assume(len(lists[i]) > 0)
				l.RemoveAt(0)
				lists[i] = removeS(lists[i], 0)
			}
			nd.Check(o.EGet(a) == any(l), "a many-valued feature keeps its list")
		} else {
			switch intn("op", 2) {
			case 0:
				v := valueOf(ts[i], "v")
				o.ESet(a, v)
				vals[i], isSet[i] = v, true
			case 1:
				o.EUnset(a)
				vals[i], isSet[i] = nil, false
			}
		}
		for j, a := range as {
			if many[j] {
				nd.Check(sameSlice(viewS(o.EGet(a).(ecore.EList)), lists[j]), "a many-valued attribute holds what was added")
				nd.Check(o.EIsSet(a) == (len(lists[j]) > 0), "a many-valued attribute is set exactly when it has elements")
			} else if isSet[j] {
				nd.Check(o.EGet(a) == vals[j], "an attribute holds the value set last")
				nd.Check(o.EIsSet(a), "an attribute with a value is set")
			} else {
				nd.Check(o.EGet(a) == defs[j], "an unset attribute shows its default")
				nd.Check(!o.EIsSet(a), "an unset attribute is not set")
			}
		}
		nd.Reach("step")
	}
}

// H_Defaults: the default of an attribute follows its type and its literal.
func H_Defaults() {
	f := ecore.GetFactory()
	a := f.CreateEAttribute()
	a.SetName("a")
	t, lit, many := -1, "", false
	for s := 0; s < nd.Param("steps"); s++ {
		switch intn("op", 4) {
		case 0:
			t = intn("type", 4)
			if indexOf([]any{litsOf[t][0], litsOf[t][1]}, lit) < 0 {
				lit = ""
				a.SetDefaultValueLiteral("")
			}
			a.SetEType(su.types[t])
		case 1:
			nd.Assume(t >= 0)
			lit = litsOf[t][intn("lit", 2)]
			a.SetDefaultValueLiteral(lit)
		case 2:
			nd.Assume(t >= 0)
			v := valueOf(t, "v")
			a.SetDefaultValue(v)
			if t == 0 {
				lit = v.(string)
				nd.Check(a.GetDefaultValueLiteral() == lit, "the default literal of a string is the string")
			} else if t == 3 {
				for _, l := range enumLits {
					if l.val == v.(int) {
						lit = l.lit
					}
				}
				nd.Check(a.GetDefaultValueLiteral() == lit, "the default literal of an enumeration is the literal")
			} else {
				if t == 1 {
					nd.Assume(v.(int) >= 0)
				}
				lit = a.GetDefaultValueLiteral()
				nd.Check(defaultOf(t, lit) == v, "the default literal denotes the default value")
			}
		case 3:
			many = intn("many", 2) == 1
			ub := 1
			if many {
				ub = -1
			}
			a.SetUpperBound(ub)
		}
		if t >= 0 && (!many || lit != "") {
			nd.Check(a.GetDefaultValue() == defaultOf(t, lit), "the default value follows the type and the literal")
		} else {
			nd.Check(a.GetDefaultValue() == nil, "no default without type")
		}
		nd.Check(a.GetDefaultValueLiteral() == lit, "the default literal is kept")
		nd.Reach("step")
	}
}

// snap reads every feature of o.
func snap(o ecore.EObject, fs []ecore.EStructuralFeature) []any {
	r := []any{}
	for _, f := range fs {
		v := o.EGetResolve(f, false)
		if l, ok := v.(ecore.EList); ok {
			v = len(l.ToArray())
		}
		r = append(r, v)
	}
	return r
}

type eventLog struct {
	ecore.AbstractEAdapter
	n []ecore.ENotification
}

func (l *eventLog) NotifyChanged(n ecore.ENotification) { l.n = append(l.n, n) }

// H_Reflect: reflective access to the attributes and references of model elements.
func H_Reflect() {
	fac := ecore.GetFactory()
	news := []func() ecore.EObject{
		func() ecore.EObject { return fac.CreateEAnnotation() },
		func() ecore.EObject { return fac.CreateEAttribute() },
		func() ecore.EObject { return fac.CreateEReference() },
		func() ecore.EObject { return fac.CreateEClass() },
		func() ecore.EObject { return fac.CreateEDataType() },
		func() ecore.EObject { return fac.CreateEEnum() },
		func() ecore.EObject { return fac.CreateEEnumLiteral() },
		func() ecore.EObject { return fac.CreateEOperation() },
		func() ecore.EObject { return fac.CreateEParameter() },
		func() ecore.EObject { return fac.CreateEPackage() },
		func() ecore.EObject { return fac.CreateEGenericType() },
		func() ecore.EObject { return fac.CreateETypeParameter() },
		func() ecore.EObject { return fac.CreateEStringToStringMapEntry().(ecore.EObject) },
	}
	o := news[intn("class", len(news))]()
	all := o.EClass().GetEAllStructuralFeatures()
	var fs []ecore.EStructuralFeature
	for i := 0; i < all.Size(); i++ {
		fs = append(fs, all.Get(i).(ecore.EStructuralFeature))
	}
	f := fs[intn("feature", len(fs))]
	nd.Assume(f.IsChangeable() && !f.IsVolatile() && !f.IsDerived())
	var def any
	if _, ok := f.(ecore.EAttribute); ok {
		def = o.EGet(f)
	}
	if o.EClass().GetName() != "EEnumLiteral" && intn("others", 2) == 1 {
		// every other attribute has a value
		for _, x := range fs {
			a, ok := x.(ecore.EAttribute)
			if !ok || x == f || !x.IsChangeable() || x.IsVolatile() || x.IsDerived() || x.IsMany() {
				continue
			}
			switch a.GetEAttributeType().GetInstanceTypeName() {
			case "string":
				o.ESet(x, "other")
			case "int":
				o.ESet(x, 3)
			case "bool":
				o.ESet(x, !o.EGet(x).(bool))
			}
		}
		nd.Reach("others")
	}
	before := snap(o, fs)
	if f.GetName() != "eFactoryInstance" { // a new package has a factory
		nd.Check(!o.EIsSet(f), "no feature of a new model element is set")
	}
	log := &eventLog{}
	o.EAdapters().Add(log)
	same := func(when string) {
		after := snap(o, fs)
		ok := true
		for i := range fs {
			if fs[i] != f && !fs[i].IsDerived() && !fs[i].IsVolatile() {
				ok = nd.And(ok, after[i] == before[i])
			}
		}
		nd.Check(ok, when+" leaves the other features alone")
	}
	told := func(v any) {
		nd.Check(len(log.n) == 1, "a change of a feature notifies once")
		n := log.n[0]
		nd.Check(n.GetNotifier() == ecore.ENotifier(o) && n.GetFeature() == f && n.GetFeatureID() == o.EClass().GetFeatureID(f), "the notification names the changed feature")
		nd.Check(n.GetNewValue() == v, "the notification carries the new value")
		log.n = nil
	}
	if a, ok := f.(ecore.EAttribute); ok {
		var v any
		switch a.GetEAttributeType().GetInstanceTypeName() {
		case "string":
			v = nd.Str("s", intn("n", 3), "ab1 ")
		case "int":
			v = nd.Int("v", -3, 3)
		case "bool":
			v = nd.Bool("b")
		default:
			nd.Assume(false)
		}
		if f.GetName() == "literal" {
			nd.Assume(v != "")
		}
		o.ESet(f, v)
		nd.Check(o.EGet(f) == v, "an attribute of a model element holds the value set")
		nd.Check(o.EIsSet(f) == (v != def), "an attribute of a model element is set when it differs from its default")
		if n := f.GetName(); n != "featureID" && n != "operationID" { // positions kept by the class
			told(v)
		}
		if o.EClass().GetName() != "EEnumLiteral" { // the literal text follows the name
			same("setting an attribute")
		}
		nd.Reach("attribute")
	} else {
		t := f.GetEType().(ecore.EClass)
		v := newModel(t.GetName())
		nd.Check(v != nil, "type of feature "+f.GetName())
		r := f.(ecore.EReference)
		how := intn("how", 2)
		if f.IsMany() {
			l := o.EGet(f).(ecore.EList)
			if how == 0 {
				l.Add(v)
			} else {
				o.ESet(f, ecore.NewImmutableEList([]any{v}))
			}
			l = o.EGet(f).(ecore.EList)
			nd.Check(l.Size() == 1 && l.Get(0) == any(v), "a list of a model element holds the element added")
		} else {
			o.ESet(f, v)
			nd.Check(o.EGet(f) == v, "a reference of a model element holds the object set")
		}
		nd.Check(o.EIsSet(f), "a reference with a value is set")
		if how == 0 {
			told(v)
		}
		if r.IsContainment() {
			nd.Check(v.EContainer() == o && v.EContainingFeature() == f, "a contained element knows its container")
			nd.Check(o.EContents().Contains(v), "a contained element is a content")
		}
		if opp := r.GetEOpposite(); opp != nil {
			if opp.IsMany() {
				nd.Check(v.EGet(opp).(ecore.EList).Contains(o), "the opposite refers back")
			} else {
				nd.Check(v.EGet(opp) == o, "the opposite refers back")
			}
		}
		same("setting a reference")
		w := newModel(t.GetName())
		if intn("more", 2) == 1 {
			if f.IsMany() {
				l := o.EGet(f).(ecore.EList)
				l.Insert(0, w)
				log.n = nil
				nd.Check(l.Remove(v), "an element of a list can be removed")
				nd.Check(len(log.n) == 1 && log.n[0].GetOldValue() == v && log.n[0].GetFeature() == f && log.n[0].GetPosition() == 1, "removing an element notifies once")
				nd.Check(l.Size() == 1 && l.Get(0) == any(w), "the other elements stay")
			} else {
				log.n = nil
				o.ESet(f, w)
				nd.Check(o.EGet(f) == w, "a reference of a model element holds the object set last")
				nd.Check(len(log.n) == 1 && log.n[0].GetOldValue() == v && log.n[0].GetNewValue() == w && log.n[0].GetFeature() == f, "replacing an object notifies once")
			}
			if r.IsContainment() {
				nd.Check(v.EContainer() == nil && v.EResource() == nil, "a removed element has no container")
				nd.Check(w.EContainer() == o, "the new element knows its container")
			}
			if opp := r.GetEOpposite(); opp != nil && !opp.IsMany() {
				nd.Check(v.EGet(opp) == nil && w.EGet(opp) == o, "the opposites follow")
			}
			same("replacing an element")
			nd.Reach("replaced")
		}
		nd.Reach("reference")
	}
	log.n = nil
	o.EUnset(f)
	nd.Check(!o.EIsSet(f), "an unset feature is not set")
	if f.IsMany() {
		nd.Check(o.EGet(f).(ecore.EList).Empty(), "an unset list is empty")
	} else {
		nd.Check(o.EGet(f) == def, "an unset feature shows its default")
	}
	if o.EClass().GetName() != "EEnumLiteral" {
		same("unsetting a feature")
	}
}

// newModel is a new model element for a feature of type name.
func newModel(name string) ecore.EObject {
	fac := ecore.GetFactory()
	switch name {
	case "EObject", "EModelElement", "EClassifier", "EClass":
		return fac.CreateEClass()
	case "EStructuralFeature", "EAttribute":
		return fac.CreateEAttribute()
	case "EReference":
		return fac.CreateEReference()
	case "EOperation":
		return fac.CreateEOperation()
	case "EParameter":
		return fac.CreateEParameter()
	case "EAnnotation":
		return fac.CreateEAnnotation()
	case "EPackage":
		return fac.CreateEPackage()
	case "EEnumLiteral":
		return fac.CreateEEnumLiteral()
	case "EGenericType":
		return fac.CreateEGenericType()
	case "ETypeParameter":
		return fac.CreateETypeParameter()
	case "EFactory":
		return fac.CreateEFactory()
	case "EStringToStringMapEntry":
		return fac.CreateEStringToStringMapEntry().(ecore.EObject)
	}
	return nil
}
