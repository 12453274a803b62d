package h

import (
	"github.com/masagroup/soft.go/ecore"
)

// The test metamodel: one package with a class "N" carrying every kind of feature.

type fdef struct {
	name  string
	many  bool
	cont  bool
	opp   int // index of the opposite feature, -1 if none
	attr  string
	uniq  bool
	id    bool
	proxy bool
	f     ecore.EStructuralFeature
}

const (
	fID = iota
	fName
	fCount
	fTags
	fUTags
	fChild
	fChildren
	fParent
	fKids
	fOnly
	fHolder
	fRef
	fRefs
	fNext
	fPrev
	fOwner
	fThings
	fLinks
	fLinkedBy
	fMax
)

type mmT struct {
	pkg   ecore.EPackage
	fac   ecore.EFactory
	n     ecore.EClass
	base  ecore.EClass
	pad   ecore.EClass
	f     [fMax]*fdef
	newFn func(c ecore.EClass) ecore.EObject
	first int
}

// order lists the features as the class does.
func (m *mmT) order() []int {
	r := make([]int, fMax)
	for i := range r {
		r[i] = (m.first + i) % fMax
	}
	return r
}

var mm *mmT

func addFeature(c ecore.EClass, d *fdef) {
	if d.attr != "" {
		a := ecore.GetFactory().CreateEAttribute()
		a.SetName(d.name)
		switch d.attr {
		case "string":
			a.SetEType(ecore.GetPackage().GetEString())
		case "int":
			a.SetEType(ecore.GetPackage().GetEInt())
		case "bool":
			a.SetEType(ecore.GetPackage().GetEBoolean())
		}
		if d.many {
			a.SetUpperBound(-1)
		}
		a.SetUnique(d.uniq)
		if d.id {
			a.SetID(true)
		}
		d.f = a
	} else {
		r := ecore.GetFactory().CreateEReference()
		r.SetName(d.name)
		r.SetEType(c)
		if d.many {
			r.SetUpperBound(-1)
		}
		r.SetContainment(d.cont)
		r.SetResolveProxies(d.proxy)
		d.f = r
	}
	c.GetEStructuralFeatures().Add(d.f)
}

// buildMM builds the metamodel. mi: class N inherits its features from "Base"
// after those of another super class, so that feature ids differ from the
// position in the declaring class. proxy: references resolve proxies.
func buildMM(mi, proxy bool) *mmT { return buildMMi(mi, mi, proxy) }

// buildMMFirst: the class whose first feature is a given one.
func buildMMFirst(first int) *mmT {
	mmFirst = first
	defer func() { mmFirst = fChild }()
	return buildMM(false, false)
}

// mmFirst is the first feature of the class: id 0 is that of a reference.
var mmFirst = fChild

// buildMMi: inherit says whether the features of N are those of a super class.
func buildMMi(inherit, mi, proxy bool) *mmT {
	m := &mmT{first: mmFirst}
	fac := ecore.GetFactory()
	m.pkg = fac.CreateEPackage()
	m.pkg.SetName("lib")
	m.pkg.SetNsURI("http://lib")
	m.pkg.SetNsPrefix("lib")
	m.n = fac.CreateEClass()
	m.n.SetName("N")
	host := m.n
	if inherit {
		m.base = fac.CreateEClass()
		m.base.SetName("Base")
		host = m.base
		m.pkg.GetEClassifiers().Add(m.base)
	}
	if mi {
		m.pad = fac.CreateEClass()
		m.pad.SetName("Pad")
		addFeature(m.pad, &fdef{name: "pad1", attr: "string"})
		addFeature(m.pad, &fdef{name: "pad2", attr: "string"})
		m.pkg.GetEClassifiers().Add(m.pad)
	}
	m.pkg.GetEClassifiers().Add(m.n)
	defs := [fMax]*fdef{
		fID:       {name: "id", attr: "string", id: true, uniq: true},
		fName:     {name: "name", attr: "string", uniq: true},
		fCount:    {name: "count", attr: "int", uniq: true},
		fTags:     {name: "tags", attr: "string", many: true},
		fUTags:    {name: "utags", attr: "string", many: true, uniq: true},
		fChild:    {name: "child", cont: true, opp: -1},
		fChildren: {name: "children", cont: true, many: true, opp: fParent},
		fParent:   {name: "parent", opp: fChildren},
		fKids:     {name: "kids", cont: true, many: true, opp: -1},
		fOnly:     {name: "only", cont: true, opp: fHolder},
		fHolder:   {name: "holder", opp: fOnly},
		fRef:      {name: "ref", opp: -1},
		fRefs:     {name: "refs", many: true, opp: -1},
		fNext:     {name: "next", opp: fPrev},
		fPrev:     {name: "prev", opp: fNext},
		fOwner:    {name: "owner", opp: fThings},
		fThings:   {name: "things", many: true, opp: fOwner},
		fLinks:    {name: "links", many: true, opp: fLinkedBy},
		fLinkedBy: {name: "linkedBy", many: true, opp: fLinks},
	}
	m.f = defs
	for i := range defs {
		d := defs[(mmFirst+i)%fMax]
		if d.attr != "" {
			d.opp = -1
		} else {
			d.proxy = proxy
		}
		addFeature(host, d)
	}
	for _, d := range defs {
		if d.opp >= 0 {
			d.f.(ecore.EReference).SetEOpposite(defs[d.opp].f.(ecore.EReference))
		}
	}
	if mi {
		m.n.GetESuperTypes().Add(m.pad)
	}
	if inherit {
		m.n.GetESuperTypes().Add(m.base)
	}
	m.fac = m.pkg.GetEFactoryInstance()
	if m.fac == nil {
		m.fac = fac.CreateEFactory()
		m.pkg.SetEFactoryInstance(m.fac)
	}
	m.newFn = func(c ecore.EClass) ecore.EObject { return m.fac.Create(c) }
	return m
}

func (m *mmT) new() ecore.EObject { return m.newFn(m.n) }

func (m *mmT) ft(i int) ecore.EStructuralFeature { return m.f[i].f }

func (m *mmT) list(o ecore.EObject, i int) ecore.EList { return o.EGet(m.f[i].f).(ecore.EList) }
