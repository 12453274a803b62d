package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Copy"] = entry{Setup_Copy, H_Copy}
	All["H_CopyRefs"] = entry{Setup_CopyRefs, H_CopyRefs}
	All["H_CopyInherit"] = entry{Setup_CopyInherit, H_CopyInherit}
	All["H_Equals"] = entry{Setup_Equals, H_Equals}
	All["H_EqualsInherit"] = entry{Setup_EqualsInherit, H_EqualsInherit}
	All["H_CopyModel"] = entry{Setup_CopyModel, H_CopyModel}
}

func Setup_Copy()          { mm = buildMM(false, false) }
func Setup_CopyRefs()      { mm = buildMM(false, false) }
func Setup_CopyInherit()   { mm = buildMMi(true, false, false) }
func Setup_Equals()        { mm = buildMM(false, false) }
func Setup_EqualsInherit() { mm = buildMMi(true, false, false) }
func Setup_CopyModel()     { ecore.GetPackage() }

var crossFs = []int{fRef, fRefs, fNext, fThings, fLinks}

// someGraph is a forest with n cross references and an attribute value.
func someGraph(k, n int, fs []int) (*gstate, []ecore.EObject) {
	g, objs := someForest(k, fs)
	for i := 0; i < n; i++ {
		a, f, b := intn("from", k), crossFs[intn("cross", len(crossFs))], intn("to", k)
		nd.Assume(idxI(g.st[a][f], b) < 0)
		if mm.f[f].many {
			at := intn("at", len(g.st[a][f])+1)
			mm.list(objs[a], f).Insert(at, objs[b])
			g.link(a, f, b, at)
		} else {
			nd.Assume(len(g.st[a][f]) == 0 && (mm.f[f].opp < 0 || len(g.st[b][mm.f[f].opp]) == 0))
			objs[a].ESet(mm.ft(f), objs[b])
			g.link(a, f, b, -1)
		}
	}
	return g, objs
}

func setAttrs(o ecore.EObject) {
	switch intn("attr", 4) {
	case 1:
		o.ESet(mm.ft(fName), nd.Str("name", 1, "ab"))
	case 2:
		o.ESet(mm.ft(fCount), nd.Int("count", -2, 2))
	case 3:
		l := mm.list(o, fTags)
		l.Add(nd.Str("tag", 1, "ab"))
		l.Add("a")
	}
}

func sameAttrs(a, b ecore.EObject) {
	for _, f := range []int{fID, fName, fCount} {
		nd.Check(a.EGet(mm.ft(f)) == b.EGet(mm.ft(f)) && a.EIsSet(mm.ft(f)) == b.EIsSet(mm.ft(f)), "a copy has the same attributes")
	}
	x, y := mm.list(a, fTags), mm.list(b, fTags)
	nd.Check(x != y && sameSlice(viewS(x), viewS(y)), "a copy has its own list with the same values")
}

func copyCase(k, n int) {
	g, objs := someGraph(k, n, []int{fChild, fChildren, fKids})
	setAttrs(objs[intn("attrOf", k)])
	// what is copied
	var src []int
	if intn("all", 2) == 1 {
		src = g.roots[0]
		if len(src) > 1 && intn("part", 2) == 1 {
			src = src[:1]
		}
	} else {
		src = []int{intn("of", k)}
	}
	var got []any
	if len(src) == 1 {
		got = []any{ecore.Copy(objs[src[0]])}
	} else {
		got = viewS(ecore.CopyAll(ecore.NewImmutableEList(g.objsOf(objs, src))))
	}
	// match originals and copies through containment
	cp := make([]ecore.EObject, k)
	var match func(a int, c ecore.EObject)
	match = func(a int, c ecore.EObject) {
		nd.Check(c != nil && c != objs[a] && cp[a] == nil, "a copy is a new object")
		nd.Check(c.EClass() == objs[a].EClass(), "a copy has the class of the original")
		cp[a] = c
		sameAttrs(objs[a], c)
		for _, f := range mm.order() {
			d := mm.f[f]
			if !d.cont {
				continue
			}
			v := c.EGet(d.f)
			var l []any
			if d.many {
				l = viewS(v.(ecore.EList))
			} else if v != nil {
				l = []any{v}
			}
			nd.Check(len(l) == len(g.st[a][f]), "a copy contains as many objects")
			for i, b := range g.st[a][f] {
				x := l[i].(ecore.EObject)
				nd.Check(x.EContainer() == c, "a copied content is in the copy")
				match(b, x)
			}
		}
	}
	nd.Check(len(got) == len(src), "every object is copied")
	for i, a := range src {
		nd.Check(got[i].(ecore.EObject).EContainer() == nil, "a copy has no container")
		match(a, got[i].(ecore.EObject))
	}
	whole := true
	for a, c := range cp {
		if c == nil {
			continue
		}
		for _, f := range []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy} {
			var want []any
			for _, b := range g.st[a][f] {
				if cp[b] != nil {
					want = append(want, cp[b])
				} else if mm.f[f].opp < 0 {
					want = append(want, objs[b])
				} else {
					whole = false
				}
			}
			v := c.EGet(mm.ft(f))
			if mm.f[f].many {
				nd.Check(sameSlice(viewS(v.(ecore.EList)), want), "a copy refers to copies inside and to originals outside, in the same order")
			} else if len(want) == 0 {
				nd.Check(v == nil, "a copy does not refer to objects the original does not refer to")
			} else {
				nd.Check(v == want[0], "a copy refers to copies inside and to originals outside")
			}
		}
	}
	// the originals are untouched
	g.check(objs, []int{fChild, fChildren, fParent, fKids, fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy})
	if whole {
		nd.Check(ecore.EqualsAll(ecore.NewImmutableEList(g.objsOf(objs, src)), ecore.NewImmutableEList(got)), "a complete copy equals the original")
	}
	nd.Reach("end")
}

func H_Copy()        { copyCase(nd.Param("objs"), nd.Param("links")) }
func H_CopyInherit() { copyCase(nd.Param("objs"), nd.Param("links")) }

// equalsCase: a copy equals the original until something is changed in it.
func equalsCase() {
	k := nd.Param("objs")
	g, objs := someGraph(k, nd.Param("links"), []int{fChildren, fKids, fChild})
	for i := 1; i < k; i++ {
		nd.Assume(g.within(i, 0))
	}
	setAttrs(objs[0])
	root := objs[0]
	c := ecore.Copy(root)
	nd.Check(ecore.Equals(root, root), "an object equals itself")
	nd.Check(ecore.Equals(root, c) && ecore.Equals(c, root), "a copy equals the original")
	cs := append([]any{c}, iterS(c.EAllContents())...)
	order := append([]int{0}, g.preorder(0)...)
	cp := make([]ecore.EObject, k)
	for i, a := range order {
		cp[a] = cs[i].(ecore.EObject)
	}
	a := intn("changed", k)
	x := cp[a]
	diff := true
	switch intn("change", 6) {
	case 0:
		old := x.EGet(mm.ft(fName))
		wasSet := x.EIsSet(mm.ft(fName))
		v := nd.Str("v", 1, "abc")
		x.ESet(mm.ft(fName), v)
		diff = old != v || !wasSet
	case 1:
		v := nd.Int("w", -2, 2)
		old := x.EGet(mm.ft(fCount))
		wasSet := x.EIsSet(mm.ft(fCount))
		x.ESet(mm.ft(fCount), v)
		diff = old != v || !wasSet
	case 2:
		mm.list(x, fTags).Add("c")
	case 3:
		f := crossFs[intn("f", len(crossFs))]
		b := intn("b", k)
		nd.Assume(idxI(g.st[a][f], b) < 0)
		if mm.f[f].many {
			mm.list(x, f).Add(cp[b])
		} else {
			x.ESet(mm.ft(f), cp[b])
		}
	case 4:
		f := []int{fRef, fRefs, fNext, fThings, fLinks, fChildren, fKids, fChild}[intn("f", 8)]
		nd.Assume(len(g.st[a][f]) > 0)
		x.EUnset(mm.ft(f))
	case 5:
		x.ESet(mm.ft(fRef), objs[0])
	}
	nd.Check(ecore.Equals(root, c) == !diff, "a changed copy does not equal the original")
	nd.Check(ecore.Equals(c, root) == !diff, "equality is symmetric")
	nd.Reach("end")
}

func H_Equals()        { equalsCase() }
func H_EqualsInherit() { equalsCase() }

// H_CopyModel: copies of packages.
func H_CopyModel() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	p.SetNsPrefix("pp")
	a, b := f.CreateEClass(), f.CreateEClass()
	a.SetName("A")
	b.SetName("B")
	e := f.CreateEEnum()
	e.SetName("E")
	lit := f.CreateEEnumLiteral()
	lit.SetName("L")
	lit.SetValue(nd.Int("lit", 0, 3))
	e.GetELiterals().Add(lit)
	p.GetEClassifiers().Add(a)
	p.GetEClassifiers().Add(b)
	p.GetEClassifiers().Add(e)
	if intn("super", 2) == 1 {
		b.GetESuperTypes().Add(a)
	}
	a.SetAbstract(nd.Bool("abstract"))
	r, s := f.CreateEReference(), f.CreateEReference()
	r.SetName("r")
	s.SetName("s")
	a.GetEStructuralFeatures().Add(r)
	b.GetEStructuralFeatures().Add(s)
	r.SetEType(b)
	s.SetEType(a)
	opp := intn("opposite", 2) == 1
	if opp {
		r.SetEOpposite(s)
		s.SetEOpposite(r)
	}
	r.SetContainment(nd.Bool("containment"))
	r.SetUpperBound(nd.Int("upper", -1, 2))
	t := f.CreateEAttribute()
	t.SetName("t")
	t.SetID(nd.Bool("id"))
	a.GetEStructuralFeatures().Add(t)
	own := intn("own", 2) == 1
	if own {
		t.SetEType(e)
	} else {
		t.SetEType(ecore.GetPackage().GetEString())
	}
	op := f.CreateEOperation()
	op.SetName("op")
	pa := f.CreateEParameter()
	pa.SetName("pa")
	pa.SetEType(b)
	op.GetEParameters().Add(pa)
	b.GetEOperations().Add(op)
	note := intn("note", 2) == 1
	if note {
		an := f.CreateEAnnotation()
		an.SetSource("src")
		an.GetDetails().Put("k", "v")
		b.GetEAnnotations().Add(an)
	}
	q := ecore.Copy(p).(ecore.EPackage)
	nd.Check(q != p && q.GetName() == "p" && q.GetNsURI() == "http://p" && q.GetNsPrefix() == "pp", "a copied package has the same names")
	nd.Check(q.GetEClassifiers().Size() == 3, "a copied package has its classifiers")
	a2, b2, e2 := q.GetEClassifier("A").(ecore.EClass), q.GetEClassifier("B").(ecore.EClass), q.GetEClassifier("E").(ecore.EEnum)
	nd.Check(a2 != a && b2 != b && e2 != e, "a copied package has copies")
	nd.Check(a2.IsAbstract() == a.IsAbstract(), "a copied class keeps its flags")
	nd.Check(a2.GetEPackage() == q, "a copied class is in the copied package")
	nd.Check(b2.GetESuperTypes().Size() == b.GetESuperTypes().Size(), "a copied class has as many super types")
	if b2.GetESuperTypes().Size() == 1 {
		nd.Check(b2.GetESuperTypes().Get(0) == any(a2), "the super type of a copied class is a copy")
	}
	r2, s2, t2 := a2.GetEStructuralFeatureFromName("r").(ecore.EReference), b2.GetEStructuralFeatureFromName("s").(ecore.EReference), a2.GetEStructuralFeatureFromName("t").(ecore.EAttribute)
	nd.Check(r2.GetEReferenceType() == b2 && s2.GetEReferenceType() == a2, "the type of a copied reference is a copy")
	if opp {
		nd.Check(r2.GetEOpposite() == s2 && s2.GetEOpposite() == r2, "the opposite of a copied reference is a copy")
	} else {
		nd.Check(r2.GetEOpposite() == nil, "a copied reference has no opposite")
	}
	nd.Check(r2.IsContainment() == r.IsContainment() && r2.GetUpperBound() == r.GetUpperBound() && t2.IsID() == t.IsID(), "a copied feature keeps its flags")
	if own {
		nd.Check(t2.GetEType() == e2, "the type of a copied attribute is a copy")
	} else {
		nd.Check(t2.GetEType() == ecore.GetPackage().GetEString(), "the type of a copied attribute outside is the original")
	}
	nd.Check(e2.GetELiterals().Size() == 1 && e2.GetEEnumLiteralByName("L").GetValue() == lit.GetValue(), "a copied enumeration has its literals")
	op2 := b2.GetEOperations().Get(0).(ecore.EOperation)
	nd.Check(op2.GetName() == "op" && op2.GetEParameters().Get(0).(ecore.EParameter).GetEType() == b2, "a copied operation has its parameters")
	nd.Check(b2.GetEAnnotations().Size() == b.GetEAnnotations().Size(), "a copied element has its annotations")
	if note {
		nd.Check(b2.GetEAnnotation("src") != nil && b2.GetEAnnotation("src").GetDetails().GetValue("k") == "v", "a copied annotation has its details")
	}
	nd.Check(ecore.Equals(p, q), "a copied package equals the original")
	nd.Check(a.GetEStructuralFeatures().Size() == 2 && r.GetEReferenceType() == b && (!opp || r.GetEOpposite() == s), "the original package is untouched")
	if !a.IsAbstract() && !own {
		o := q.GetEFactoryInstance().Create(a2)
		o.ESet(t2, "x")
		nd.Check(o.EClass() == a2 && o.EGet(t2) == "x" && !o.EIsSet(r2), "a copied class has instances")
	}
	op2.SetName("other")
	nd.Check(!ecore.Equals(p, q), "a changed package does not equal the original")
	nd.Reach("end")
}

// H_CopyRefs: long reference lists to objects inside and outside of the copy.
func H_CopyRefs() {
	k := 4
	g := newG(k)
	g.nu = k
	objs := newObjs(k)
	f := []int{fRefs, fThings, fLinks}[intn("f", 3)]
	var src []int
	for i := 0; i < k; i++ {
		switch intn("where", 3) {
		case 0:
			src = append(src, i)
		case 1:
			nd.Assume(i > 0)
			mm.list(objs[0], fKids).Add(objs[i])
			g.link(0, fKids, i, -1)
		}
	}
	nd.Assume(len(src) > 0 && src[0] == 0)
	from := intn("from", 2)
	for n := 0; n < nd.Param("links"); n++ {
		a := 0
		if n > 0 {
			a = from * intn("from", 2)
		}
		b := intn("to", k)
		nd.Assume(idxI(g.st[a][f], b) < 0 && (f != fThings || len(g.st[b][fOwner]) == 0))
		mm.list(objs[a], f).Add(objs[b])
		g.link(a, f, b, -1)
	}
	got := viewS(ecore.CopyAll(ecore.NewImmutableEList(g.objsOf(objs, src))))
	cp := make([]ecore.EObject, k)
	for i, a := range src {
		c := got[i].(ecore.EObject)
		cp[a] = c
		for j, b := range g.st[a][fKids] {
			cp[b] = mm.list(c, fKids).Get(j).(ecore.EObject)
		}
	}
	for a, c := range cp {
		if c == nil {
			continue
		}
		for _, x := range []int{f, fOwner, fLinkedBy} {
			var want []any
			for _, b := range g.st[a][x] {
				if cp[b] != nil {
					want = append(want, cp[b])
				} else if mm.f[x].opp < 0 {
					want = append(want, objs[b])
				}
			}
			if !mm.f[x].many {
				nd.Check(len(want) == 0 && c.EGet(mm.ft(x)) == nil || len(want) == 1 && c.EGet(mm.ft(x)) == want[0], "a copy refers to copies inside")
				continue
			}
			nd.Check(sameSlice(viewS(c.EGet(mm.ft(x)).(ecore.EList)), want), "a copy refers to copies inside and to originals outside, in the same order")
		}
	}
	nd.Reach("end")
}
