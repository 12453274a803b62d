package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_ProxySingle"] = entry{Setup_ProxySingle, H_ProxySingle}
	All["H_ProxyList"] = entry{Setup_ProxyList, H_ProxyList}
	All["H_ProxyDynamicList"] = entry{Setup_ProxyDynamicList, H_ProxyDynamicList}
	All["H_ProxyContainer"] = entry{Setup_ProxyContainer, H_ProxyContainer}
	All["H_ProxyModel"] = entry{Setup_ProxyModel, H_ProxyModel}
	All["H_ProxyURI"] = entry{Setup_ProxyURI, H_ProxyURI}
}

func Setup_ProxySingle()      { mm = buildMM(false, true) }
func Setup_ProxyList()        { mm = buildMM(false, true) }
func Setup_ProxyDynamicList() { mm = buildMM(false, true) }
func Setup_ProxyURI()         { mm = buildMM(false, true) }
func Setup_ProxyModel()       { mm = buildMM(false, true) }

// resolves counts the notifications of a resolution.
type resolveRec struct {
	ecore.AbstractEAdapter
	n        int
	old, new any
	f        ecore.EStructuralFeature
	pos      int
	other    int
}

func (r *resolveRec) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.RESOLVE {
		r.n++
		r.old, r.new, r.f, r.pos = n.GetOldValue(), n.GetNewValue(), n.GetFeature(), n.GetPosition()
	} else {
		r.other++
	}
}

// proxyWorld is a set of two resources: m:/a.x holds the owner, m:/b.x the targets.
type proxyWorld struct {
	rs      *ecore.EResourceSetImpl
	a, b    ecore.EResource
	targets []ecore.EObject
}

// newProxyWorld: the targets are a root, its child by "children", and another root which is a proxy to the first.
func newProxyWorld(inSet bool) *proxyWorld {
	w := &proxyWorld{}
	w.rs, _ = newStoreSet(0, false)
	w.a = ecore.NewEResourceImpl()
	w.a.SetURI(ecore.NewURI("m:/a.x"))
	if inSet {
		w.rs.GetResources().Add(w.a)
	}
	w.b = w.rs.CreateResource(ecore.NewURI("m:/b.x"))
	t0, t1 := mm.new(), mm.new()
	t0.ESet(mm.ft(fID), "t")
	mm.list(t0, fChildren).Add(t1)
	w.b.GetContents().Add(t0)
	w.targets = []ecore.EObject{t0, t1}
	return w
}

// proxies: what a proxy may point to
const proxyCases = 7

// proxy returns a proxy and what it is resolved to.
func (w *proxyWorld) proxy(c int, inSet bool) (ecore.EObject, ecore.EObject) {
	p := mm.new()
	frag := []string{"m:/b.x#t", "m:/b.x#/", "m:/b.x#//@children.0", "m:/b.x#none", "m:/none.x#t", "m:/b.x", "m:/b.x#//@children.1"}[c]
	p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(frag))
	var t ecore.EObject = p
	if inSet {
		switch c {
		case 0, 1:
			t = w.targets[0]
		case 2:
			t = w.targets[1]
		}
	}
	return p, t
}

// H_ProxySingle: resolution of the proxy held by a single reference.
func H_ProxySingle() {
	inSet := nd.Bool("inSet")
	k := intn("kind", nd.Param("kinds"))
	mm.newFn = func(c ecore.EClass) ecore.EObject { return newKind(k, c) }
	w := newProxyWorld(inSet)
	o := mm.new()
	switch intn("where", 2) {
	case 0:
		w.a.GetContents().Add(o)
	default:
		r := mm.new()
		mm.list(r, fKids).Add(o)
		w.a.GetContents().Add(r)
	}
	f := []int{fRef, fNext, fChild, fOnly}[intn("f", 4)]
	ft := mm.ft(f).(ecore.EReference)
	resolves := nd.Bool("resolves")
	if !resolves {
		ft.SetResolveProxies(false)
	}
	c := intn("to", proxyCases)
	p, t := w.proxy(c, inSet)
	if !resolves {
		t = p
	}
	if mm.f[f].cont {
		nd.Assume(t == p || t == w.targets[0]) // a contained object may not be another container's
	}
	o.ESet(ft, p)
	rec := &resolveRec{}
	o.EAdapters().Add(rec)
	if nd.Bool("raw") {
		nd.Check(o.EGetResolve(ft, false) == any(p), "a proxy is not resolved unless asked for")
		nd.Check(o.EIsSet(ft), "a reference to a proxy is set")
		nd.Check(rec.n == 0, "a proxy that is not resolved is not notified")
	}
	for i := 0; i < 2; i++ {
		nd.Check(o.EGet(ft) == any(t), "a reference to a proxy gives the object the proxy stands for, else the proxy")
		want := 0
		if t != p {
			want = 1
			nd.Check(rec.old == any(p) && rec.new == any(t) && rec.f == ecore.EStructuralFeature(ft), "the notification of a resolution tells the proxy, the object and the feature")
		}
		nd.Check(rec.n == want, "the resolution of a proxy is notified once")
		nd.Check(rec.other == 0, "the resolution of a proxy is notified as such only")
		nd.Check(o.EGetResolve(ft, false) == any(t), "a resolved reference holds the object")
		nd.Check(o.EIsSet(ft), "a resolved reference is set")
		nd.Check(p.EIsProxy() && !w.targets[0].EIsProxy(), "the resolution changes neither the proxy nor the object")
	}
	if mm.f[f].cont {
		x := o.EGet(ft).(ecore.EObject)
		nd.Check(x.EContainer() == o, "a resolved child knows its container")
		if t != p {
			nd.Check(p.EContainer() == nil, "the proxy of a resolved child is not contained any more")
			nd.Check(x.EResource() == w.b, "a resolved child stays in its resource")
			nd.Check(w.b.GetContents().Contains(x), "a resolved child stays in its resource")
		}
		nd.Check(sameSlice(viewS(o.EContents()), []any{x}), "the contents show the resolved child")
	} else {
		nd.Check(sameSlice(viewS(o.ECrossReferences()), []any{t}), "the cross references show the resolved object")
	}
	nd.Observe(c)
}

// ownList replaces the list of feature f of o by one that resolves proxies, as generated code has it.
func ownList(o ecore.EObject, f int) ecore.EObjectList {
	d := mm.f[f]
	inv, opp := -1, false
	if d.opp >= 0 {
		inv, opp = mm.f[d.opp].f.GetFeatureID(), true
	}
	l := ecore.NewBasicEObjectList(o.(ecore.EObjectInternal), d.f.GetFeatureID(), inv, d.cont, d.cont || opp, opp, true, false)
	o.(ecore.EObjectInternal).EDynamicProperties().EDynamicSet(d.f.GetFeatureID(), l)
	return l
}

// H_ProxyList: resolution of the proxies in a list, one operation first.
func H_ProxyList() {
	w := newProxyWorld(true)
	t2 := mm.new()
	t2.ESet(mm.ft(fID), "u")
	w.b.GetContents().Add(t2)
	o := mm.new()
	w.a.GetContents().Add(o)
	f := []int{fRefs, fKids, fChildren, fLinks}[intn("f", nd.Param("features"))]
	l := ownList(o, f)
	n := intn("n", nd.Param("n")) + 1
	var raw, res []any
	for i := 0; i < n; i++ {
		// a plain object, a proxy to one of two targets, a proxy to nothing
		switch intn("elem", 4) {
		case 0:
			x := mm.new()
			raw, res = append(raw, x), append(res, x)
		case 1:
			p, t := w.proxy(0, true)
			nd.Assume(indexOf(res, t) < 0)
			raw, res = append(raw, p), append(res, t)
		case 2:
			p := mm.new()
			p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/b.x#u"))
			nd.Assume(indexOf(res, t2) < 0)
			raw, res = append(raw, p), append(res, t2)
		default:
			p, _ := w.proxy(3, true)
			raw, res = append(raw, p), append(res, p)
		}
		l.GetUnResolvedList().Add(raw[i])
	}
	rec := &resolveRec{}
	o.EAdapters().Add(rec)
	nd.Check(sameSlice(viewS(l.GetUnResolvedList()), raw), "the unresolved list shows the proxies")
	nd.Check(rec.n == 0, "the unresolved list resolves nothing")
	i := intn("i", n)
	switch intn("op", 11) {
	case 0:
		nd.Check(l.Get(i) == res[i], "an element of a list is the object its proxy stands for")
	case 1:
		nd.Check(l.Contains(res[i]), "a list contains the objects its proxies stand for")
	case 2:
		nd.Check(l.IndexOf(res[i]) == i, "the index of an object is that of its proxy")
	case 3:
		nd.Check(l.Remove(res[i]), "an object is removed when its proxy is there")
		raw, res = removeS(raw, i), removeS(res, i)
	case 4:
		l.RemoveAll(ecore.NewImmutableEList([]any{res[i]}))
		raw, res = removeS(raw, i), removeS(res, i)
	case 5:
		nd.Check(!l.Add(res[i]), "an object is not added when its proxy is there")
	case 6:
		x := l.RemoveAt(i)
		nd.Check(x == raw[i] || x == res[i], "the removed element is returned")
		raw, res = removeS(raw, i), removeS(res, i)
	case 7:
		nd.Check(l.GetUnResolvedList().Contains(raw[i]), "the unresolved list contains the proxies")
		nd.Check(l.GetUnResolvedList().IndexOf(raw[i]) == i, "the index of a proxy in the unresolved list")
		nd.Check(l.GetUnResolvedList().Contains(res[i]) == (raw[i] == res[i]), "the unresolved list does not contain what a proxy stands for")
		nd.Check(rec.n == 0, "the unresolved list resolves nothing")
	case 8:
		nd.Check(l.GetUnResolvedList().Remove(raw[i]), "a proxy is removed through the unresolved list")
		raw, res = removeS(raw, i), removeS(res, i)
	case 9:
		j := intn("j", n)
		l.Move(i, j)
		raw, res = moveS(raw, i, j), moveS(res, i, j)
	default:
		x := mm.new()
		old := l.Set(i, x)
		nd.Check(old == raw[i] || old == res[i], "the replaced element is returned")
		raw[i], res[i] = x, x
	}
	before := rec.n
	_ = before
	switch intn("read", 3) {
	case 0:
		checkViews(l, res, "a list of proxies")
	case 1:
		nd.Check(sameSlice(l.ToArray(), res), "a list as an array shows the resolved objects")
	default:
		nd.Check(sameSlice(iterS(l.Iterator()), res), "the iterator of a list shows the resolved objects")
	}
	checkViews(l.GetUnResolvedList(), res, "the unresolved list, once resolved")
	for j, x := range res {
		e := x.(ecore.EObject)
		if mm.f[f].cont {
			nd.Check(e.EContainer() == o, "a resolved child knows its container")
		}
		if raw[j] != x {
			p := raw[j].(ecore.EObject)
			if mm.f[f].cont {
				nd.Check(p.EContainer() == nil, "the proxy of a resolved child is not contained any more")
			}
			nd.Check(e.EResource() == w.b, "a resolved object stays in its resource")
		}
	}
	n0 := rec.n
	viewS(l)
	nd.Check(rec.n == n0, "a resolved list is not resolved again")
}

// H_ProxyDynamicList: resolution of the proxies in the lists of dynamic objects.
func H_ProxyDynamicList() {
	k := intn("kind", nd.Param("kinds"))
	mm.newFn = func(c ecore.EClass) ecore.EObject { return newKind(k, c) }
	w := newProxyWorld(true)
	o := mm.new()
	w.a.GetContents().Add(o)
	f := []int{fRefs, fKids, fChildren, fLinks, fThings}[intn("f", 5)]
	p, t := w.proxy(0, true)
	l := mm.list(o, f)
	l.Add(p)
	nd.KnownCheck(l.Get(0) == any(t), "dynamic-list-proxies", "the list of a dynamic object gives the object its proxy stands for")
}

var pcClass ecore.EClass
var pcRefs []ecore.EReference
var pcBack []ecore.EReference
var pcFac ecore.EFactory

func Setup_ProxyContainer() {
	mm = buildMM(false, true)
	f := ecore.GetFactory()
	pcPkg := f.CreateEPackage()
	pcClass = f.CreateEClass()
	pcClass.SetName("C")
	pcRefs, pcBack = nil, nil
	add := func(name string, cont, many bool) ecore.EReference {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(pcClass)
		r.SetContainment(cont)
		r.SetResolveProxies(true)
		if many {
			r.SetUpperBound(-1)
		}
		pcClass.GetEStructuralFeatures().Add(r)
		return r
	}
	a, b, c, d := add("a", true, false), add("b", true, true), add("c", true, false), add("d", true, true)
	e, g := add("e", false, false), add("g", false, false)
	c.SetEOpposite(e)
	e.SetEOpposite(c)
	d.SetEOpposite(g)
	g.SetEOpposite(d)
	pcRefs = []ecore.EReference{a, b, c, d}
	pcBack = []ecore.EReference{nil, nil, e, g}
	pcPkg.GetEClassifiers().Add(pcClass)
	pcFac = pcPkg.GetEFactoryInstance()
}

// H_ProxyContainer: the container of an object is a proxy, as when it was loaded from its own resource.
func H_ProxyContainer() {
	w := newProxyWorld(true)
	pcNew := func() ecore.EObject { return newKind(intn("kind", 3), pcClass) }
	child := pcNew()
	real := pcNew()
	p := newKind(0, pcClass)
	p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI([]string{"m:/b.x#/1", "m:/b.x#none"}[intn("to", 2)]))
	w.b.GetContents().Add(real)
	w.a.GetContents().Add(child)
	i := intn("f", 4)
	f := pcRefs[i]
	known := intn("known", 2) == 1 // the real container has a proxy of the child
	back := newKind(0, pcClass)
	if known {
		back.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/a.x#/"))
		if f.IsMany() {
			ecoreListOf(real, f).Add(back)
		} else {
			real.ESet(f, back)
		}
	}
	if f.IsMany() {
		ecoreListOf(p, f).Add(child)
	} else {
		p.ESet(f, child)
	}
	rec := &resolveRec{}
	child.EAdapters().Add(rec)
	want := p
	if p.(ecore.EObjectInternal).EProxyURI().Fragment() == "/1" {
		want = real
	}
	nd.Check(child.(ecore.EObjectInternal).EInternalContainer() == p, "the container is a proxy until resolved")
	for j := 0; j < 2; j++ {
		nd.Check(child.EContainer() == want, "the container of an object is the object its proxy stands for")
		nd.Check(child.EContainingFeature() == ecore.EStructuralFeature(f), "the resolution of a container keeps the feature")
		nd.Check(i >= 2 || child.EContainmentFeature() == f, "the resolution of a container keeps the containment feature")
		if pcBack[i] != nil {
			nd.Check(child.EGet(pcBack[i]) == any(want), "the opposite of a containment shows the resolved container")
		}
		nd.Check(child.EResource() == w.a && w.a.GetContents().Contains(child), "an object stays in its resource when its container is resolved")
		n := 0
		if want == real && pcBack[i] != nil {
			n = 1
		}
		nd.Check(rec.n == n, "the resolution of a container is notified once for the feature that shows it")
		if n == 1 {
			nd.Check(rec.f == ecore.EStructuralFeature(pcBack[i]) && rec.old == any(p) && rec.new == any(real), "the notification of the resolution of a container")
		}
	}
	if want == real && known && !f.IsMany() {
		nd.Check(real.EGet(f) == any(child), "the container shows its child, once resolved")
		nd.Check(child.EContainer() == real, "the child knows its container")
	}
}

func ecoreListOf(o ecore.EObject, f ecore.EStructuralFeature) ecore.EList {
	return o.EGet(f).(ecore.EList)
}

// H_ProxyModel: the proxies of a metamodel.
func H_ProxyModel() {
	f := ecore.GetFactory()
	rs, _ := newStoreSet(0, false)
	ra, rb := rs.CreateResource(ecore.NewURI("m:/a.x")), rs.CreateResource(ecore.NewURI("m:/b.x"))
	pa, pb := f.CreateEPackage(), f.CreateEPackage()
	ra.GetContents().Add(pa)
	rb.GetContents().Add(pb)
	sup, sub := f.CreateEClass(), f.CreateEClass()
	sup.SetName("Sup")
	sub.SetName("Sub")
	pb.GetEClassifiers().Add(sup)
	pa.GetEClassifiers().Add(sub)
	x := f.CreateEAttribute()
	x.SetName("x")
	sup.GetEStructuralFeatures().Add(x)
	r := f.CreateEReference()
	r.SetName("r")
	sub.GetEStructuralFeatures().Add(r)
	proxy := func(o ecore.EObject, frag string) {
		o.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/b.x#" + frag))
	}
	switch intn("what", 3) {
	case 0: // super type
		p := f.CreateEClass()
		proxy(p, "//Sup")
		sub.GetESuperTypes().Add(p)
		if nd.Bool("early") {
			sub.GetEAllStructuralFeatures()
			sub.GetEAllSuperTypes()
		}
		nd.Check(sub.GetESuperTypes().Get(0) == any(sup), "a super type is the class its proxy stands for")
		nd.Check(sameSlice(viewS(sub.GetEAllSuperTypes()), []any{sup}), "all super types are those the proxies stand for")
		nd.Check(sameSlice(viewS(sub.GetEAllStructuralFeatures()), []any{x, r}), "the features of a class include those of its resolved super type")
		nd.Check(sup.IsSuperTypeOf(sub), "a resolved super type is a super type")
		y := f.CreateEAttribute()
		y.SetName("y")
		sup.GetEStructuralFeatures().Add(y)
		nd.Check(sameSlice(viewS(sub.GetEAllStructuralFeatures()), []any{x, y, r}), "a feature added to a resolved super type is inherited")
		sub.GetESuperTypes().Clear()
		nd.Check(sameSlice(viewS(sub.GetEAllStructuralFeatures()), []any{r}), "a class without super type has its own features")
	case 1: // type of a reference
		p := f.CreateEClass()
		proxy(p, "//Sup")
		r.SetEType(p)
		nd.Check(r.GetEType() == ecore.EClassifier(sup), "the type of a feature is the class its proxy stands for")
		nd.Check(r.GetEReferenceType() == sup, "the type of a reference is the class its proxy stands for")
		nd.Check(r.EGetResolve(ecore.GetPackage().GetETypedElement_EType(), false) == any(sup), "a resolved type stays resolved")
	default: // type of an attribute, in the ecore package
		a := f.CreateEAttribute()
		a.SetName("a")
		if nd.Bool("in") {
			sub.GetEStructuralFeatures().Add(a)
		}
		p := f.CreateEDataType()
		p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(ecore.NS_URI + "#//EString"))
		a.SetEType(p)
		nd.Check(a.GetEType() == ecore.EClassifier(ecore.GetPackage().GetEString()), "a proxy to a registered package is resolved")
		nd.Check(a.GetEAttributeType() == ecore.GetPackage().GetEString(), "a proxy to a registered package is resolved")
	}
}

// H_ProxyURI: the URI of an object leads to the object.
func H_ProxyURI() {
	w := newProxyWorld(true)
	o := mm.new()
	w.a.GetContents().Add(o)
	if nd.Bool("second") {
		w.b.GetContents().Add(mm.new())
	}
	i := intn("i", 2)
	t := w.targets[i]
	if nd.Bool("noid") {
		w.targets[0].EUnset(mm.ft(fID))
	}
	u := ecore.GetURI(t)
	nd.Check(w.rs.GetEObject(u, false) == t, "the URI of an object leads to the object")
	p := mm.new()
	p.(ecore.EObjectInternal).ESetProxyURI(u)
	nd.Check(ecore.GetURI(p) == u, "the URI of a proxy is that of the object")
	// a proxy to a proxy
	if nd.Bool("chain") {
		q := mm.new()
		q.ESet(mm.ft(fID), "q")
		q.(ecore.EObjectInternal).ESetProxyURI(u)
		w.b.GetContents().Add(q)
		p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/b.x#q"))
		u = ecore.GetURI(t)
		q.(ecore.EObjectInternal).ESetProxyURI(u)
	}
	switch intn("how", 3) {
	case 0:
		nd.Check(ecore.ResolveInObject(p, o) == t, "a proxy is resolved in the context of an object")
	case 1:
		nd.Check(ecore.ResolveInResource(p, w.a) == t, "a proxy is resolved in the context of a resource")
	default:
		nd.Check(ecore.ResolveInResourceSet(p, w.rs) == t, "a proxy is resolved in a resource set")
	}
	nd.Check(ecore.ResolveInObject(t, o) == t, "an object that is no proxy is resolved to itself")
}
