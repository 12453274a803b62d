package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Class"] = entry{Setup_Class, H_Class}
	All["H_SuperLinks"] = entry{Setup_Class, H_SuperLinks}
	All["H_ClassProps"] = entry{Setup_ClassProps, H_ClassProps}
	All["H_Override"] = entry{Setup_Override, H_Override}
	All["H_Package"] = entry{Setup_Package, H_Package}
	All["H_Enum"] = entry{Setup_Enum, H_Enum}
	All["H_Registry"] = entry{Setup_Registry, H_Registry}
}

func Setup_Class()      { ecore.GetPackage() }
func Setup_ClassProps() { ecore.GetPackage() }
func Setup_Override()   { ecore.GetPackage() }
func Setup_Package()    { ecore.GetPackage() }
func Setup_Enum()       { ecore.GetPackage() }
func Setup_Registry()   { ecore.GetPackage() }

func expClosure(c ecore.EClass, own func(ecore.EClass) []any, self bool) []any {
	r := []any{}
	for _, s := range viewS(c.GetESuperTypes()) {
		r = append(r, expClosure(s.(ecore.EClass), own, self)...)
		if self {
			r = append(r, s)
		}
	}
	if own != nil {
		r = append(r, own(c)...)
	}
	return dedupS(r)
}

func filterS(l []any, f func(any) bool) []any {
	r := []any{}
	for _, x := range l {
		if f(x) {
			r = append(r, x)
		}
	}
	return r
}

func isAttr(x any) bool { _, ok := x.(ecore.EAttribute); return ok }
func isRef(x any) bool  { _, ok := x.(ecore.EReference); return ok }
func isCont(x any) bool { r, ok := x.(ecore.EReference); return ok && r.IsContainment() }
func isCross(x any) bool {
	r, ok := x.(ecore.EReference)
	return ok && !r.IsContainment() && !(r.GetEOpposite() != nil && r.GetEOpposite().IsContainment())
}
func notDerived(f func(any) bool) func(any) bool {
	return func(x any) bool { return f(x) && !x.(ecore.EReference).IsDerived() }
}

func checkClass(c ecore.EClass, all []ecore.EClass) {
	own := viewS(c.GetEStructuralFeatures())
	feats := expClosure(c, func(c ecore.EClass) []any { return viewS(c.GetEStructuralFeatures()) }, false)
	supers := expClosure(c, nil, true)
	eq := func(l ecore.EList, want []any, what string) {
		nd.Check(sameSlice(viewS(l), want), "a class computes "+what+" from its super types and features")
	}
	eq(c.GetEAllSuperTypes(), supers, "all super types")
	eq(c.GetEAllStructuralFeatures(), feats, "all features")
	eq(c.GetEAttributes(), filterS(own, isAttr), "attributes")
	eq(c.GetEAllAttributes(), filterS(feats, isAttr), "all attributes")
	eq(c.GetEReferences(), filterS(own, isRef), "references")
	eq(c.GetEAllReferences(), filterS(feats, isRef), "all references")
	eq(c.GetEAllContainments(), filterS(feats, isCont), "all containments")
	eq(c.GetEAllCrossReferences(), filterS(feats, isCross), "all cross references")
	eq(c.GetEContainmentFeatures(), filterS(own, notDerived(isCont)), "containment features")
	eq(c.GetECrossReferenceFeatures(), filterS(own, notDerived(isCross)), "cross reference features")
	ids := filterS(feats, func(x any) bool { a, ok := x.(ecore.EAttribute); return ok && a.IsID() })
	if len(ids) == 0 {
		nd.Check(c.GetEIDAttribute() == nil, "a class without id attribute has none")
	} else {
		nd.Check(c.GetEIDAttribute() == ids[0], "the id attribute of a class is the first of its attributes that is an id")
	}
	nd.Check(c.GetFeatureCount() == len(feats), "the feature count of a class is the number of its features")
	names := map[string]any{}
	for i, f := range feats {
		ft := f.(ecore.EStructuralFeature)
		nd.Check(c.GetEStructuralFeature(i) == f, "a feature id selects the feature at its position")
		nd.Check(c.GetFeatureID(ft) == i, "the feature id of a feature is its position")
		names[ft.GetName()] = f
	}
	nd.Check(c.GetEStructuralFeature(-1) == nil && c.GetEStructuralFeature(len(feats)) == nil, "there is no feature out of range")
	for _, n := range []string{"a", "b", "c", "d", "x"} {
		f := c.GetEStructuralFeatureFromName(n)
		if e := names[n]; e == nil {
			nd.Check(f == nil, "an unknown feature name finds nothing")
		} else {
			nd.Check(f == e, "a feature is found by its name")
		}
	}
	opers := expClosure(c, func(c ecore.EClass) []any { return viewS(c.GetEOperations()) }, false)
	eq(c.GetEAllOperations(), opers, "all operations")
	nd.Check(c.GetOperationCount() == len(opers), "the operation count of a class is the number of its operations")
	for i, o := range opers {
		nd.Check(c.GetEOperation(i) == o, "an operation id selects the operation at its position")
		nd.Check(c.GetOperationID(o.(ecore.EOperation)) == i, "the operation id of an operation is its position")
	}
	for _, d := range all {
		nd.Check(d.IsSuperTypeOf(c) == (d == c || has(supers, d)), "super type test")
		for _, f := range viewS(d.GetEStructuralFeatures()) {
			if indexOf(feats, f) < 0 {
				nd.Check(c.GetFeatureID(f.(ecore.EStructuralFeature)) == -1, "a feature of another class has no feature id")
			}
			nd.Check(f.(ecore.EStructuralFeature).GetEContainingClass() == d, "a feature knows its class")
		}
	}
}

func isSuper(a, b ecore.EClass) bool {
	if a == b {
		return true
	}
	for _, s := range viewS(b.GetESuperTypes()) {
		if isSuper(a, s.(ecore.EClass)) {
			return true
		}
	}
	return false
}

func newFeature(kind int, name string, t ecore.EClass) ecore.EStructuralFeature {
	if kind < 2 {
		a := ecore.GetFactory().CreateEAttribute()
		a.SetName(name)
		a.SetEType(ecore.GetPackage().GetEString())
		a.SetID(kind == 1)
		return a
	}
	r := ecore.GetFactory().CreateEReference()
	r.SetName(name)
	r.SetEType(t)
	r.SetContainment(kind == 3)
	return r
}

func newOp(name string) ecore.EOperation {
	o := ecore.GetFactory().CreateEOperation()
	o.SetName(name)
	return o
}

func someClasses(n, feats int) []ecore.EClass {
	var cs []ecore.EClass
	names := []string{"a", "b", "c", "d"}
	for i := 0; i < n; i++ {
		c := ecore.GetFactory().CreateEClass()
		c.SetName(names[i])
		for f := 0; f < feats; f++ {
			c.GetEStructuralFeatures().Add(newFeature(intn("kind", 4), names[f], c))
		}
		c.GetEOperations().Add(newOp("o"))
		cs = append(cs, c)
	}
	return cs
}

func checkClasses(cs []ecore.EClass) {
	// from the sub classes up or from the super classes down
	for i := range cs {
		checkClass(cs[len(cs)-1-i], cs)
	}
}

func superStep(cs []ecore.EClass) {
	i := intn("c", len(cs))
	l := cs[i].GetESuperTypes()
	n := l.Size()
	free := func(name string) ecore.EClass {
		j := intn(name, len(cs))
		nd.Assume(!isSuper(cs[i], cs[j]) && !l.Contains(cs[j]))
		return cs[j]
	}
	switch intn("sop", 7) {
	case 0:
		l.Add(free("s"))
	case 1:
		l.Insert(0, free("s"))
	case 2:
		a, b := free("s"), free("s2")
		nd.Assume(a != b)
		l.AddAll(ecore.NewImmutableEList([]any{a, b}))
	case 3:
		nd.Assume(n > 0)
		l.RemoveAt(intn("i", n))
	case 4:
		nd.Assume(n > 0)
		l.Set(intn("i", n), free("s"))
	case 5:
		nd.Assume(n > 1)
		l.Move(0, n-1)
	case 6:
		nd.Assume(n > 0)
		l.Clear()
	}
}

func featureStep(cs []ecore.EClass) {
	i := intn("c", len(cs))
	l := cs[i].GetEStructuralFeatures()
	n := l.Size()
	switch intn("fop", 8) {
	case 0:
		l.Insert(intn("i", n+1), newFeature(intn("kind", 4), "x", cs[0]))
	case 1:
		nd.Assume(n > 0)
		l.RemoveAt(intn("i", n))
	case 2:
		nd.Assume(n > 1)
		l.Move(intn("i", n), intn("j", n))
	case 3:
		nd.Assume(n > 0)
		l.Set(intn("i", n), newFeature(intn("kind", 4), "x", cs[0]))
	case 4:
		nd.Assume(n > 0)
		l.Clear()
	case 5:
		// to another class
		j := intn("c2", len(cs))
		nd.Assume(n > 0 && j != i)
		cs[j].GetEStructuralFeatures().Add(l.Get(intn("i", n)))
	case 6:
		cs[i].GetEOperations().Insert(intn("i", cs[i].GetEOperations().Size()+1), newOp("p"))
	case 7:
		nd.Assume(cs[i].GetEOperations().Size() > 0)
		cs[i].GetEOperations().RemoveAt(0)
	}
}

// H_Class: derived features follow changes of super types and features.
func H_Class() {
	cs := someClasses(nd.Param("classes"), nd.Param("feats"))
	// an initial hierarchy: none, chain, two super types, diamond
	sup := [][][2]int{{}, {{1, 0}, {2, 1}}, {{2, 0}, {2, 1}}, {{1, 0}, {2, 1}, {2, 0}}, {{1, 0}}}[intn("shape", 5)]
	for _, e := range sup {
		cs[e[0]].GetESuperTypes().Add(cs[e[1]])
	}
	checkClasses(cs)
	for s := 0; s < nd.Param("steps"); s++ {
		if intn("what", 2) == 0 {
			superStep(cs)
		} else {
			featureStep(cs)
		}
		if s+1 < nd.Param("steps") && intn("look", 2) == 1 {
			checkClasses(cs)
		}
	}
	checkClasses(cs)
	// what is inherited is known through later changes
	for _, c := range cs {
		c.GetEStructuralFeatures().Add(newFeature(3, "late", c))
		c.GetEOperations().Add(newOp("late"))
		checkClasses(cs)
	}
	nd.Reach("end")
}

// H_SuperLinks: whatever hierarchy classes form and however it was changed,
// what a class inherits follows later changes of its super classes.
func H_SuperLinks() {
	cs := someClasses(nd.Param("classes"), 0)
	for i, c := range cs {
		var l []any
		for j := 0; j < i; j++ {
			if intn("edge", 2) == 1 {
				l = append(l, cs[j])
			}
		}
		if len(l) > 1 && intn("all", 2) == 1 {
			c.GetESuperTypes().AddAll(ecore.NewImmutableEList(l))
		} else {
			for _, s := range l {
				c.GetESuperTypes().Add(s)
			}
		}
	}
	light := func() {
		for i := range cs {
			c := cs[len(cs)-1-i]
			feats := expClosure(c, func(c ecore.EClass) []any { return viewS(c.GetEStructuralFeatures()) }, false)
			nd.Check(sameSlice(viewS(c.GetEAllStructuralFeatures()), feats), "the features of a class follow its super classes")
			nd.Check(sameSlice(viewS(c.GetEAllContainments()), feats), "the containments of a class follow its super classes")
			opers := expClosure(c, func(c ecore.EClass) []any { return viewS(c.GetEOperations()) }, false)
			nd.Check(sameSlice(viewS(c.GetEAllOperations()), opers), "the operations of a class follow its super classes")
			nd.Check(sameSlice(viewS(c.GetEAllSuperTypes()), expClosure(c, nil, true)), "all super types of a class follow its super classes")
		}
	}
	light()
	for s := 0; s < nd.Param("steps"); s++ {
		superStep(cs)
		if intn("look", 2) == 1 {
			light()
		}
	}
	for _, c := range cs {
		c.GetEStructuralFeatures().Add(newFeature(3, "late", c))
		c.GetEOperations().Add(newOp("late"))
		light()
	}
	s := ecore.GetFactory().CreateEClass()
	cs[0].GetESuperTypes().Add(s)
	light()
	nd.Reach("end")
}

// H_ClassProps: derived features follow changes of the features themselves.
func H_ClassProps() {
	cs := someClasses(2, 2)
	cs[1].GetESuperTypes().Add(cs[0])
	checkClasses(cs)
	for s := 0; s < nd.Param("steps"); s++ {
		c := cs[intn("c", 2)]
		f := c.GetEStructuralFeatures().Get(intn("f", 2)).(ecore.EStructuralFeature)
		switch intn("prop", 5) {
		case 0:
			f.SetName(opt("name", "a", "b", "x"))
		case 1:
			a, ok := f.(ecore.EAttribute)
			nd.Assume(ok)
			a.SetID(!a.IsID())
		case 2:
			r, ok := f.(ecore.EReference)
			nd.Assume(ok)
			r.SetContainment(!r.IsContainment())
		case 3:
			r, ok := f.(ecore.EReference)
			nd.Assume(ok)
			g, ok := cs[intn("c2", 2)].GetEStructuralFeatures().Get(intn("f2", 2)).(ecore.EReference)
			nd.Assume(ok && g != r)
			nd.Assume(r.GetEOpposite() == nil && g.GetEOpposite() == nil && !(r.IsContainment() && g.IsContainment()))
			r.SetEOpposite(g)
			g.SetEOpposite(r)
		case 4:
			f.SetDerived(!f.IsDerived())
		}
		if s+1 < nd.Param("steps") && intn("look", 2) == 1 {
			checkClasses(cs)
		}
	}
	checkClasses(cs)
	nd.Reach("end")
}

// H_Override: the override of an operation in a class.
func H_Override() {
	cs := someClasses(3, 0)
	sup := [][][2]int{{{1, 0}, {2, 1}}, {{2, 0}, {2, 1}}, {{1, 0}, {2, 0}}}[intn("shape", 3)]
	for _, e := range sup {
		cs[e[0]].GetESuperTypes().Add(cs[e[1]])
	}
	types := []ecore.EClassifier{ecore.GetPackage().GetEString(), ecore.GetPackage().GetEInt()}
	for _, c := range cs {
		c.GetEOperations().Clear()
		o := newOp(opt("name", "o", "p"))
		for i := intn("params", 2); i > 0; i-- {
			p := ecore.GetFactory().CreateEParameter()
			p.SetEType(types[intn("type", 2)])
			o.GetEParameters().Add(p)
		}
		c.GetEOperations().Add(o)
	}
	sig := func(o ecore.EOperation) string {
		s := o.GetName()
		for _, p := range viewS(o.GetEParameters()) {
			s += "," + p.(ecore.EParameter).GetEType().GetName()
		}
		return s
	}
	for _, c := range cs {
		all := viewS(c.GetEAllOperations())
		for _, x := range all {
			o := x.(ecore.EOperation)
			got := c.GetOverride(o)
			n := 0
			for _, y := range all {
				p := y.(ecore.EOperation)
				over := p != o && isSuper(o.GetEContainingClass(), p.GetEContainingClass()) && sig(o) == sig(p)
				nd.Check(p.IsOverrideOf(o) == (over || p == o), "an operation overrides those of super classes with the same signature")
				if over {
					n++
					if got == p {
						n += 100
					}
				}
			}
			if n == 0 {
				nd.Check(got == nil, "an operation without override has none")
			} else {
				nd.Check(n > 100, "the override of an operation is one of the overriding operations")
			}
		}
	}
	nd.Reach("end")
}

// H_Package: classifiers of a package by name and position.
func H_Package() {
	p := ecore.GetFactory().CreateEPackage()
	q := ecore.GetFactory().CreateEPackage()
	l := p.GetEClassifiers()
	names := []string{"a", "b", "c"}
	l.Add(ecore.GetFactory().CreateEEnum())
	l.Get(0).(ecore.EClassifier).SetName(opt("name", names...))
	newC := func() ecore.EClassifier {
		e := ecore.GetFactory().CreateEClass()
		e.SetName(opt("name", names...))
		return e
	}
	var seen []any
	check := func() {
		cur := viewS(l)
		for _, n := range names {
			c := p.GetEClassifier(n)
			if c == nil {
				for _, x := range cur {
					nd.Check(x.(ecore.EClassifier).GetName() != n, "a classifier is found by its name")
				}
			} else {
				nd.Check(c.GetName() == n && indexOf(cur, c) >= 0, "the classifier found by a name is in the package and has that name")
			}
		}
		for _, x := range cur {
			nd.Check(x.(ecore.EClassifier).GetEPackage() == p, "a classifier knows its package")
		}
		for _, x := range seen {
			if indexOf(cur, x) < 0 && x.(ecore.EObject).EContainer() != q {
				nd.Check(x.(ecore.EClassifier).GetEPackage() == nil, "a removed classifier has no package")
			}
		}
		seen = cur
	}
	l.Add(newC())
	check()
	for s := 0; s < nd.Param("steps"); s++ {
		n := l.Size()
		switch intn("op", 7) {
		case 0:
			l.Insert(intn("i", n+1), newC())
		case 1:
			nd.Assume(n > 0)
			l.RemoveAt(intn("i", n))
		case 2:
			nd.Assume(n > 0)
			l.Set(intn("i", n), newC())
		case 3:
			nd.Assume(n > 0)
			l.Get(intn("i", n)).(ecore.EClassifier).SetName(opt("name", names...))
		case 4:
			l.Clear()
		case 5:
			nd.Assume(n > 0)
			x := l.Get(intn("i", n)).(ecore.EClassifier)
			q.GetEClassifiers().Add(x)
			nd.Check(x.GetEPackage() == q, "a classifier added to another package changes its package")
		case 6:
			nd.Assume(n > 1)
			l.Move(intn("i", n), intn("j", n))
		}
		check()
	}
	for i, x := range viewS(l) {
		nd.Check(x.(ecore.EClassifier).GetClassifierID() == i, "the id of a classifier is its position in the package")
	}
	nd.Reach("end")
}

// H_Enum: literals of an enumeration by name, literal and value.
func H_Enum() {
	e := ecore.GetFactory().CreateEEnum()
	l := e.GetELiterals()
	names := []string{"a", "b", "c"}
	k := nd.Param("lits")
	for i := 0; i < k; i++ {
		x := ecore.GetFactory().CreateEEnumLiteral()
		x.SetName(opt("name", names...))
		x.SetLiteral(opt("lit", "", "a", "z"))
		x.SetValue(nd.Int("value", -1, 3))
		l.Add(x)
	}
	first := func(f func(ecore.EEnumLiteral) bool) any {
		for _, x := range viewS(l) {
			if f(x.(ecore.EEnumLiteral)) {
				return x
			}
		}
		return nil
	}
	same := func(x ecore.EEnumLiteral, y any, what string) {
		if y == nil {
			nd.Check(x == nil, what+" (none)")
		} else {
			nd.Check(x == y, what)
		}
	}
	for _, n := range append(names, "z", "") {
		same(e.GetEEnumLiteralByName(n), first(func(x ecore.EEnumLiteral) bool { return x.GetName() == n }), "a literal is found by its name")
		same(e.GetEEnumLiteralByLiteral(n), first(func(x ecore.EEnumLiteral) bool { return x.GetLiteral() == n }), "a literal is found by its literal")
	}
	v := nd.Int("v", -2, 4)
	same(e.GetEEnumLiteralByValue(v), first(func(x ecore.EEnumLiteral) bool { return x.GetValue() == v }), "a literal is found by its value")
	if k > 0 {
		nd.Check(e.GetDefaultValue() == l.Get(0).(ecore.EEnumLiteral).GetValue(), "the default of an enumeration is its first literal")
	} else {
		nd.Check(e.GetDefaultValue() == nil, "an empty enumeration has no default")
	}
	nd.Reach("end")
}

// H_Registry: packages and their factories by namespace.
func H_Registry() {
	var ps []ecore.EPackage
	uris := []string{"u", "v", "w"}
	for i := 0; i < 3; i++ {
		p := ecore.GetFactory().CreateEPackage()
		p.SetNsURI(uris[i%2])
		ps = append(ps, p)
	}
	d := ecore.NewEPackageRegistryImpl()
	r := ecore.NewEPackageRegistryImplWithDelegate(d)
	ref := [2]map[string]ecore.EPackage{{}, {}}
	for s := 0; s < nd.Param("steps"); s++ {
		k := intn("reg", 2)
		var x ecore.EPackageRegistry = r
		if k == 1 {
			x = d
		}
		pick := func() ecore.EPackage { return ps[intn("p", 3)] }
		uri := func() string { return opt("uri", uris...) }
		switch intn("op", 5) {
		case 0:
			p := pick()
			x.RegisterPackage(p)
			ref[k][p.GetNsURI()] = p
		case 1:
			p := pick()
			x.UnregisterPackage(p)
			delete(ref[k], p.GetNsURI())
		case 2:
			u, p := uri(), pick()
			x.PutPackage(u, p)
			ref[k][u] = p
		case 3:
			u, p := uri(), pick()
			x.PutSupplier(u, func() ecore.EPackage { return p })
			ref[k][u] = p
		case 4:
			u := uri()
			x.Remove(u)
			delete(ref[k], u)
		}
	}
	for _, u := range append(uris, "") {
		w := ref[0][u]
		if w == nil {
			w = ref[1][u]
		}
		got, fac := r.GetPackage(u), r.GetFactory(u)
		if w == nil {
			nd.Check(got == nil && fac == nil, "an unknown namespace has no package")
		} else {
			nd.Check(got == w && fac == w.GetEFactoryInstance(), "a package is found by the namespace it was registered for, first in the registry and then in its delegate")
		}
	}
	nd.Reach("end")
}
