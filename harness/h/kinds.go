package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// compactObj is a dynamic object built on the library's compact object.
type compactObj struct {
	ecore.CompactEObjectImpl
	properties []any
}

func newCompact(c ecore.EClass) ecore.EObject {
	o := &compactObj{}
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	return o
}

func (o *compactObj) EStaticFeatureCount() int                     { return 0 }
func (o *compactObj) EDynamicProperties() ecore.EDynamicProperties { return o }
func (o *compactObj) EDynamicGet(i int) any                        { return o.props()[i] }
func (o *compactObj) EFeatureID(f ecore.EStructuralFeature) int    { return o.EClass().GetFeatureID(f) }
func (o *compactObj) EDynamicSet(i int, v any)                     { o.props()[i] = v }
func (o *compactObj) EDynamicUnset(i int)                          { o.props()[i] = nil }
func (o *compactObj) EDynamicIsSet(i int) bool {
	v := o.props()[i]
	if l, _ := v.(ecore.EList); l != nil {
		return !l.Empty()
	}
	return v != nil
}
func (o *compactObj) props() []any {
	if o.properties == nil {
		o.properties = make([]any, o.EClass().GetFeatureCount())
	}
	return o.properties
}

// compactCont is a dynamic object built on the library's compact object with container.
type compactCont struct {
	ecore.CompactEObjectContainer
	properties []any
}

func (o *compactCont) EStaticFeatureCount() int                     { return 0 }
func (o *compactCont) EDynamicProperties() ecore.EDynamicProperties { return o }
func (o *compactCont) EDynamicGet(i int) any                        { return o.props()[i] }
func (o *compactCont) EFeatureID(f ecore.EStructuralFeature) int    { return o.EClass().GetFeatureID(f) }
func (o *compactCont) EDynamicSet(i int, v any)                     { o.props()[i] = v }
func (o *compactCont) EDynamicUnset(i int)                          { o.props()[i] = nil }
func (o *compactCont) EDynamicIsSet(i int) bool {
	v := o.props()[i]
	if l, _ := v.(ecore.EList); l != nil {
		return !l.Empty()
	}
	return v != nil
}
func (o *compactCont) props() []any {
	if o.properties == nil {
		o.properties = make([]any, o.EClass().GetFeatureCount())
	}
	return o.properties
}

func init() {
	All["H_KindContain"] = entry{Setup_KindContain, H_KindContain}
	All["H_KindCross"] = entry{Setup_KindCross, H_KindCross}
	All["H_KindResource"] = entry{Setup_KindResource, H_KindResource}
	All["H_KindNotify"] = entry{Setup_KindNotify, H_KindNotify}
	All["H_KindState"] = entry{Setup_KindState, H_KindState}
	All["H_KindInherit"] = entry{Setup_KindInherit, H_KindInherit}
}

func Setup_KindContain()  { mm = buildMMFirst(fHolder) }
func Setup_KindCross()    { mm = buildMMFirst(fOwner) }
func Setup_KindResource() { mm = buildMM(false, false) }
func Setup_KindNotify()   { mm = buildMM(false, false) }
func Setup_KindState()    { mm = buildMM(false, false) }
func Setup_KindInherit()  { mm = buildMM(true, false) }

const kinds = 4

func someKind() {
	k := 1 + intn("kind", kinds)
	mm.newFn = func(c ecore.EClass) ecore.EObject { return newKind(k, c) }
}

// H_KindContain: containment with every kind of object.
func H_KindContain() {
	someKind()
	fs := [][]int{{fChild, fKids}, {fChildren, fParent}, {fOnly, fHolder}}[intn("fs", 3)]
	graphCase(fs, fs)
}

// H_KindCross: references with every kind of object.
func H_KindCross() {
	someKind()
	fs := []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy}
	fs = group(fs)
	graphCase(fs, fs)
}

// H_KindResource: resources with every kind of object.
func H_KindResource() {
	someKind()
	resourceCase(false)
}

// H_KindNotify: notifications of every kind of object.
func H_KindNotify() {
	someKind()
	fs := []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy, fChild, fKids, fChildren, fParent, fOnly, fHolder}
	fs = group(fs)
	notifyCase(fs, fs)
}

// H_KindInherit: contents and cross references include inherited features.
func H_KindInherit() {
	someKind()
	o := newObjs(2)
	f := []int{fChild, fKids, fOnly, fRef, fRefs, fNext, fThings}[intn("f", 7)]
	if mm.f[f].many {
		mm.list(o[0], f).Add(o[1])
	} else {
		o[0].ESet(mm.ft(f), o[1])
	}
	l, m := o[0].EContents(), o[0].ECrossReferences()
	if !mm.f[f].cont {
		l, m = m, l
	}
	nd.Check(l.Size() == 1 && l.Get(0) == any(o[1]) && m.Empty(), "contents and cross references include those of inherited features")
	nd.Reach("end")
}

// H_KindState: container, resource, class, proxy uri, delivery flag and
// adapters of an object do not disturb one another.
func H_KindState() {
	k := intn("kind", kinds+1)
	var o ecore.EObjectInternal
	if k == kinds {
		c := &compactCont{}
		c.SetInterfaces(c)
		c.Initialize()
		c.SetEClass(mm.n)
		o = c
	} else {
		o = newKind(k, mm.n).(ecore.EObjectInternal)
	}
	other := newKind(0, mm.n)
	res := []ecore.EResource{nil, ecore.NewEResourceImpl(), ecore.NewEResourceImpl()}
	uris := []*ecore.URI{nil, ecore.NewURI("u:/1"), ecore.NewURI("u:/2")}
	var container ecore.EObject
	feature := -1
	var resource ecore.EResource
	var uri *ecore.URI
	deliver, adapters := true, 0
	read := 0
	for s := 0; s < nd.Param("steps"); s++ {
		switch intn("op", 7) {
		case 0:
			container, feature = nil, -1
			if intn("some", 2) == 1 {
				container, feature = other, nd.Int("id", -60, 60)
			}
			o.ESetInternalContainer(container, feature)
		case 1:
			resource = res[intn("res", 3)]
			o.ESetInternalResource(resource)
		case 2:
			uri = uris[intn("uri", 3)]
			o.ESetProxyURI(uri)
		case 3:
			deliver = intn("d", 2) == 1
			o.ESetDeliver(deliver)
		case 4:
			o.EAdapters().Add(&recorder{log: new([]any)})
			adapters++
		case 5:
			read |= 1
			o.EContents()
		case 6:
			read |= 2
			o.ECrossReferences()
		}
		nd.Check(o.EInternalContainer() == container && o.EContainer() == container, "an object keeps its container")
		nd.Check(feature < 0 && container == nil || o.EInternalContainerFeatureID() == feature, "an object keeps its container feature")
		nd.Check(o.EInternalResource() == resource, "an object keeps its resource")
		nd.Check(o.EIsProxy() == (uri != nil) && o.EProxyURI() == uri, "an object is a proxy exactly when it has a proxy uri")
		nd.Check(o.EDeliver() == deliver, "an object keeps its delivery flag")
		nd.Check(o.EAdapters().Size() == adapters, "an object keeps its adapters")
		nd.Check(o.EClass() == mm.n, "an object keeps its class")
		if read&1 != 0 {
			nd.Check(o.EContents().Empty(), "an object without contents has none")
		}
		if read&2 != 0 {
			nd.Check(o.ECrossReferences().Empty(), "an object without references has none")
		}
		nd.Reach("step")
	}
}
