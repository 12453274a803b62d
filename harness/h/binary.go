package h

import (
	"bytes"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_BinTree"] = entry{Setup_BinTree, H_BinTree}
	All["H_BinRefs"] = entry{Setup_BinRefs, H_BinRefs}
	All["H_BinRefPairs"] = entry{Setup_BinRefPairs, H_BinRefPairs}
	All["H_XMLValues"] = entry{Setup_XMLValues, H_XMLValues}
	All["H_BinValues"] = entry{Setup_BinValues, H_BinValues}
	All["H_BinObject"] = entry{Setup_BinObject, H_BinObject}
	All["H_BinMutated"] = entry{Setup_BinMutated, H_BinMutated}
	All["H_BinEvolved"] = entry{nil, H_BinEvolved}
	All["H_BinCross"] = entry{Setup_BinCross, H_BinCross}
	All["H_BinMixed"] = entry{Setup_BinMixed, H_BinMixed}
}

func setupBin() { buildXM(); binary = true }

func Setup_BinTree()     { setupBin() }
func Setup_BinRefs()     { setupBin() }
func Setup_BinRefPairs() { setupBin() }
func Setup_BinCross()    { setupBin() }
func Setup_BinMixed()    { setupBin() }

// H_BinTree: a tree of objects of several packages.
func H_BinTree() { H_XMLTree() }

// H_BinRefs: references inside a document.
func H_BinRefs() { H_XMLRefs() }

// H_BinRefPairs: references of two features inside a document.
func H_BinRefPairs() { H_XMLRefs() }

// H_BinCross: references and containment between two documents.
func H_BinCross() { H_XMLCross() }

// H_BinMixed: a list of references to objects of two documents.
func H_BinMixed() { H_XMLMixed() }

// H_XMLValues, H_BinValues: values of every data type in a document.
func H_XMLValues() { docValues() }
func H_BinValues() { docValues() }

func Setup_XMLValues() { Setup_ConvertDynamic(); setupValues() }
func Setup_BinValues() { Setup_ConvertDynamic(); setupValues(); binary = true }

var dvEnum ecore.EEnum
var dvRoot ecore.EClass

func setupValues() {
	f := ecore.GetFactory()
	cvPkg.SetName("t")
	cvPkg.SetNsPrefix("t")
	dvEnum = f.CreateEEnum()
	dvEnum.SetName("E")
	for i, n := range []string{"e0", "e1", "e 2"} {
		l := f.CreateEEnumLiteral()
		l.SetName(n)
		l.SetLiteral(n)
		l.SetValue(i * 5)
		dvEnum.GetELiterals().Add(l)
	}
	cvPkg.GetEClassifiers().Add(dvEnum)
	dvRoot = f.CreateEClass()
	dvRoot.SetName("V")
	cvPkg.GetEClassifiers().Add(dvRoot)
	r := f.CreateEReference()
	r.SetName("v")
	r.SetEType(dvRoot)
	r.SetContainment(true)
	r.SetUpperBound(-1)
	dvRoot.GetEStructuralFeatures().Add(r)
}

func docValues() {
	xmi := someFormat()
	f := ecore.GetFactory()
	var t ecore.EDataType
	k := -1
	switch intn("from", 4) {
	case 0:
		ts := ecoreTypes()
		i := intn("type", len(ts))
		t, k = ts[i].t, ts[i].kind
	case 1:
		i := intn("type", len(cvTypes))
		t, k = cvTypes[i], dynNames[i%len(dynNames)].kind
	case 2:
		t = dvEnum
	default:
		t, k = ecore.GetPackage().GetEDate(), -2
	}
	nd.Assume(binary || k != kStr && k != kBytes)
	a := f.CreateEAttribute()
	a.SetName("a")
	a.SetEType(t)
	many := nd.Bool("many")
	if many {
		a.SetUpperBound(-1)
		a.SetUnique(false)
	}
	dvRoot.GetEStructuralFeatures().Add(a)
	one := func() any {
		switch k {
		case -1:
			return intn("e", 3) * 5
		case -2:
			d := time.Date([]int{1969, 2024}[intn("year", 2)], 2, 28, 23, 59, 1, []int{0, 5000000, 120000000}[intn("ms", 3)], time.UTC)
			return &d
		}
		v := valueOfKind(k)
		if b, ok := v.(byte); ok {
			nd.Assume(b >= 0x20 && b < 0x7f)
		}
		return v
	}
	rs := ecore.NewEResourceSetImpl()
	rs.GetPackageRegistry().RegisterPackage(cvPkg)
	r, l := newResource(rs, "m:/a.x"), newResource(rs, "m:/b.x")
	o := cvPkg.GetEFactoryInstance().Create(dvRoot)
	c := cvPkg.GetEFactoryInstance().Create(dvRoot)
	o.EGet(dvRoot.GetEStructuralFeatures().Get(0).(ecore.EStructuralFeature)).(ecore.EList).Add(c)
	r.GetContents().Add(o)
	var vals []any
	for i, n := 0, 1+intn("n", nd.Param("n")); i < n; i++ {
		v := one()
		if many {
			o.EGet(a).(ecore.EList).Add(v)
		} else if i == 0 {
			o.ESet(a, v)
		} else {
			c.ESet(a, v)
		}
		vals = append(vals, v)
	}
	doc := xmlEncode(xmi, r, nil)
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	xmlDecode(xmi, l, doc, nil)
	logErrors(l)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	p := l.GetContents().Get(0).(ecore.EObject)
	q := p.EGet(dvRoot.GetEStructuralFeatures().Get(0).(ecore.EStructuralFeature)).(ecore.EList).Get(0).(ecore.EObject)
	for i, v := range vals {
		var w any
		if many {
			nd.Check(p.EGet(a).(ecore.EList).Size() == len(vals), "a document has as many values as were written")
			w = p.EGet(a).(ecore.EList).Get(i)
		} else {
			w = []ecore.EObject{p, q}[i].EGet(a)
		}
		if d, ok := v.(*time.Time); ok {
			e, ok := w.(*time.Time)
			nd.Check(ok && d.Equal(*e), "a value is read as it was written")
		} else {
			nd.Check(sameValue(v, w), "a value is read as it was written")
		}
	}
}

func Setup_BinObject() { setupBin() }

// H_BinObject: one object of a resource.
func H_BinObject() {
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	if nd.Bool("nouri") {
		r.SetURI(nil)
	}
	n := nd.Param("n")
	var objs []ecore.EObject
	up := make([]int, n)
	ids := nd.Bool("ids")
	for i := 0; i < n; i++ {
		o := xm.new(intn("class", nd.Param("classes")))
		objs = append(objs, o)
		up[i] = -1
		if ids {
			o.ESet(mm.ft(fID), []string{"a", "b", "c", "d"}[i])
		}
		if i == 0 {
			r.GetContents().Add(o)
		} else {
			up[i] = intn("parent", i)
			putIn(objs[up[i]], o, mm.ft([]int{fKids, fChildren, fOnly}[intn("cont", nd.Param("conts"))]).(ecore.EReference))
		}
	}
	f := xRefs[intn("f", len(xRefs))]
	for i, m := 0, nd.Param("refs"); i < m; i++ {
		xm.refer(objs[intn("a", n)], f, objs[intn("b", n)])
	}
	at := intn("at", n)
	nd.Assume(r.GetURI() != nil || at == 0)
	var buf bytes.Buffer
	nd.Check(ecore.NewBinaryEncoder(r, &buf, nil).EncodeObject(objs[at]) == nil, "an object is written without error")
	c, err := ecore.NewBinaryDecoder(r, &buf, nil).DecodeObject()
	nd.Check(err == nil && c != nil, "an object that was written is read without error")
	k, l := docOrder(objs[at]), docOrder(c)
	nd.Check(len(k) == len(l), "an object is read with the contents that were written")
	for i := range k {
		a, b := k[i].(ecore.EObject), l[i].(ecore.EObject)
		nd.Check(a != b && a.EClass() == b.EClass() && a.EGet(mm.ft(fID)) == b.EGet(mm.ft(fID)), "an object is read with the values that were written")
		if i > 0 {
			nd.Check(indexOf(k, a.EContainer()) == indexOf(l, b.EContainer()), "an object is read where it was written")
		}
		for _, g := range xm.refs {
			if g.IsContainer() {
				continue
			}
			var x, y []any
			if g.IsMany() {
				x, y = viewS(a.EGetResolve(g, false).(ecore.EList)), viewS(b.EGetResolve(g, false).(ecore.EList))
			} else {
				if v := a.EGetResolve(g, false); v != nil {
					x = []any{v}
				}
				if v := b.EGetResolve(g, false); v != nil {
					y = []any{v}
				}
			}
			nd.Check(len(x) == len(y), "an object is read with the references that were written: "+g.GetName())
			for j := range x {
				if t := indexOf(k, x[j]); t >= 0 {
					nd.Check(indexOf(l, y[j]) == t, "a reference to what was written leads to what is read")
				} else {
					z := y[j].(ecore.EObject)
					nd.Check(z.EIsProxy() && ecore.ResolveInResource(z, r) == x[j], "a reference to what was not written leads to it")
				}
			}
		}
	}
}

var binDoc string

func Setup_BinMutated() {
	setupDecode()
	binary = true
	binDoc = ""
	r := newResource(xm.set(), "m:/a.x")
	lit := mm.n.GetEStructuralFeatureFromName("lit")
	o, k, c := xm.new(0), xm.new(1), xm.new(0)
	r.GetContents().Add(o)
	mm.list(o, fKids).Add(k)
	mm.list(k, fChildren).Add(c)
	o.ESet(mm.ft(fName), "n")
	c.ESet(mm.ft(fCount), 300)
	mm.list(c, fTags).Add("t")
	k.ESet(lit, 1)
	c.ESet(lit, 1)
	k.ESet(mm.ft(fRef), o)
	mm.list(o, fLinks).Add(c)
	mm.list(o, fLinks).Add(k)
	p := xm.new(0)
	p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/o.x#p"))
	c.ESet(mm.ft(fNext), p)
	binDoc = xmlEncode(false, r, nil)
}

// H_BinMutated: a binary resource with any change of a byte.
func H_BinMutated() {
	doc := binDoc
	n := len(doc)
	at := nd.Conc(nd.Int("at", 0, n-1))
	cut := false
	switch intn("how", 3) {
	case 0:
		doc = doc[:at] + string([]byte{nd.Byte("byte")}) + doc[at+1:]
	case 1:
		doc = doc[:at] + doc[at+1:]
	default:
		doc = doc[:at]
		cut = true
	}
	r := newResource(xm.set(), "m:/a.x")
	xmlDecode(false, r, doc, nil)
	if r.GetErrors().Empty() {
		nd.Check(!cut, "a truncated resource is an error")
		_ = docsOf(r)
	}
}

// evolved is a package whose features are those of fs, in this order.
func evolved(classes, fs []int) ecore.EPackage {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsPrefix("p")
	p.SetNsURI("http://p")
	for _, i := range classes {
		c := f.CreateEClass()
		c.SetName([]string{"A", "B", "Z"}[i])
		p.GetEClassifiers().Add(c)
	}
	a, b := p.GetEClassifier("A").(ecore.EClass), p.GetEClassifier("B").(ecore.EClass)
	for _, i := range fs {
		switch i {
		case 0, 1, 2:
			x := f.CreateEAttribute()
			x.SetName([]string{"s", "t", "u"}[i])
			x.SetEType(ecore.GetPackage().GetEString())
			a.GetEStructuralFeatures().Add(x)
		case 3, 4:
			x := f.CreateEReference()
			x.SetName([]string{"k", "l"}[i-3])
			x.SetEType(b)
			x.SetContainment(true)
			x.SetUpperBound(-1)
			a.GetEStructuralFeatures().Add(x)
		}
	}
	x := f.CreateEAttribute()
	x.SetName("n")
	x.SetEType(ecore.GetPackage().GetEInt())
	b.GetEStructuralFeatures().Add(x)
	return p
}

// H_BinEvolved: a resource written with another version of a package.
func H_BinEvolved() {
	versions := [][]int{{0, 1, 3, 4}, {2, 0, 3, 1, 4}, {4, 3, 1, 0}, {0, 3}, {3, 2, 0}}
	orders := [][]int{{0, 1}, {1, 0}, {2, 1, 0}, {0, 2, 1}}
	v, w := versions[intn("v", len(versions))], versions[intn("w", len(versions))]
	written, read := evolved(orders[intn("x", len(orders))], v), evolved(orders[intn("y", len(orders))], w)
	in := func(l []int, x int) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	names := []string{"s", "t", "u", "k", "l"}
	set := []bool{}
	lost := false
	rs := ecore.NewEResourceSetImpl()
	rs.GetPackageRegistry().RegisterPackage(written)
	r := newResource(rs, "m:/a.x")
	a := written.GetEClassifier("A").(ecore.EClass)
	b := written.GetEClassifier("B").(ecore.EClass)
	o := written.GetEFactoryInstance().Create(a)
	r.GetContents().Add(o)
	for i := range names {
		s := in(v, i) && nd.Bool("set")
		set = append(set, s)
		if !s {
			continue
		}
		lost = lost || !in(w, i)
		ft := a.GetEStructuralFeatureFromName(names[i])
		if i < 3 {
			o.ESet(ft, "v"+names[i])
		} else {
			k := written.GetEFactoryInstance().Create(b)
			k.ESet(b.GetEStructuralFeatureFromName("n"), i)
			o.EGet(ft).(ecore.EList).Add(k)
		}
	}
	var buf bytes.Buffer
	ecore.NewBinaryEncoder(r, &buf, nil).EncodeResource()
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	ls := ecore.NewEResourceSetImpl()
	ls.GetPackageRegistry().RegisterPackage(read)
	l := newResource(ls, "m:/a.x")
	ecore.NewBinaryDecoder(l, &buf, nil).DecodeResource()
	nd.Check(l.GetErrors().Empty() != lost, "a resource is read without error if the package has its features")
	if lost {
		return
	}
	p := l.GetContents().Get(0).(ecore.EObject)
	c := read.GetEClassifier("A").(ecore.EClass)
	nd.Check(p.EClass() == c, "an object is read as an object of its class")
	for i := range names {
		if !in(w, i) {
			continue
		}
		ft := c.GetEStructuralFeatureFromName(names[i])
		if !set[i] {
			nd.Check(!p.EIsSet(ft), "a feature is read as it was written")
		} else if i < 3 {
			nd.Check(p.EGet(ft) == "v"+names[i], "a feature is read as it was written")
		} else {
			k := p.EGet(ft).(ecore.EList)
			nd.Check(k.Size() == 1 && k.Get(0).(ecore.EObject).EGet(read.GetEClassifier("B").(ecore.EClass).GetEStructuralFeatureFromName("n")) == i, "a feature is read as it was written")
		}
	}
}
