package h

import (
	"bytes"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_XMLMeta"] = entry{nil, H_XMLMeta}
	All["H_MetaNames"] = entry{nil, H_MetaNames}
}

// extended gives an element extended metadata.
func extended(e ecore.EModelElement, kv ...string) {
	a := ecore.GetFactory().CreateEAnnotation()
	a.SetSource("http:///org/eclipse/emf/ecore/util/ExtendedMetaData")
	for i := 0; i < len(kv); i += 2 {
		a.GetDetails().Put(kv[i], kv[i+1])
	}
	e.GetEAnnotations().Add(a)
}

// H_XMLMeta: documents of packages with extended metadata.
func H_XMLMeta() {
	f := ecore.GetFactory()
	p, q := f.CreateEPackage(), f.CreateEPackage()
	for i, x := range []ecore.EPackage{p, q} {
		x.SetName([]string{"p", "q"}[i])
		x.SetNsPrefix(x.GetName())
		x.SetNsURI("http://" + x.GetName())
	}
	class := func(x ecore.EPackage, name string) ecore.EClass {
		c := f.CreateEClass()
		c.SetName(name)
		x.GetEClassifiers().Add(c)
		return c
	}
	a, b, c := class(p, "A"), class(p, "B"), class(q, "C")
	b.GetESuperTypes().Add(a)
	c.GetESuperTypes().Add(a)
	attr := func(o ecore.EClass, name string) ecore.EAttribute {
		t := f.CreateEAttribute()
		t.SetName(name)
		t.SetEType(ecore.GetPackage().GetEString())
		o.GetEStructuralFeatures().Add(t)
		return t
	}
	ref := func(o ecore.EClass, name string, t ecore.EClass, cont bool, many bool) ecore.EReference {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(t)
		r.SetContainment(cont)
		if many {
			r.SetUpperBound(-1)
		}
		o.GetEStructuralFeatures().Add(r)
		return r
	}
	x, y := attr(a, "x"), attr(a, "y")
	tags := attr(a, "tags")
	tags.SetUpperBound(-1)
	kids, r := ref(a, "kids", a, true, true), ref(a, "r", a, false, false)
	// names
	feats := []ecore.EStructuralFeature{x, y, tags, kids, r}
	names := intn("names", nd.Param("names"))
	switch names {
	case 1: // another name, one that another feature has not
		extended(feats[intn("of", 5)], "name", "other")
	case 2: // names exchanged
		extended(x, "name", "y")
		extended(y, "name", "x")
	case 3:
		extended(kids, "name", "r")
		extended(r, "name", "kids")
	case 4: // classes
		extended(a, "name", "B")
		extended(b, "name", "A")
	case 5:
		extended(a, "name", "a-1", "kind", "elementOnly")
		extended(c, "name", "A")
	case 6: // no name
		extended(a, "kind", "elementOnly")
		extended(x, "kind", "attribute")
	}
	if n := intn("ns", 5); n > 0 {
		nd.Assume(names == 0 || nd.Param("both") == 1)
		ns := []string{"##targetNamespace", "http://p", "http://q", "http://nowhere"}[n-1]
		extended(feats[intn("nsof", 5)], "namespace", ns)
	}
	// document root
	var root ecore.EClass
	var rootFs []ecore.EReference
	var prefixes ecore.EReference
	if n := intn("root", nd.Param("roots")); n > 0 {
		root = class(p, "DocumentRoot")
		if nd.Bool("rootfirst") {
			p.GetEClassifiers().MoveObject(0, root)
		}
		extended(root, "name", "", "kind", "mixed")
		t := []ecore.EClass{a, b}[(n-1)%2]
		if n > 2 {
			m := ref(root, "xMLNSPrefixMap", ecore.GetPackage().GetEStringToStringMapEntry(), true, true)
			extended(m, "kind", "attribute", "name", "xmlns:prefix")
			m.SetTransient(true)
			prefixes = m
		}
		rootFs = append(rootFs, ref(root, "top", t, true, false))
		extended(rootFs[0], "namespace", []string{"##targetNamespace", "http://p"}[intn("rootns", nd.Param("both")+1)])
	}
	rs := ecore.NewEResourceSetImpl()
	rs.GetPackageRegistry().RegisterPackage(p)
	rs.GetPackageRegistry().RegisterPackage(q)
	ra, rl := newResource(rs, "m:/a.x"), newResource(rs, "m:/b.x")
	new := func(k int) ecore.EObject {
		t := []ecore.EClass{a, b, c}[k]
		return t.GetEPackage().GetEFactoryInstance().Create(t)
	}
	o, k := new(intn("class", 3)), new(intn("kid", 3))
	o.ESet(x, "vx")
	k.ESet(y, "vy")
	o.EGet(tags).(ecore.EList).AddAll(ecore.NewImmutableEList([]any{"t", "u"}))
	o.EGet(kids).(ecore.EList).Add(k)
	// a document root has a feature for each of the objects it is written for
	nd.Assume(root == nil || rootFs[0].GetEReferenceType().IsSuperTypeOf(o.EClass()))
	top, zz := o, false
	if root != nil && nd.Bool("wrap") {
		top = p.GetEFactoryInstance().Create(root)
		top.ESet(rootFs[0], o)
		if prefixes != nil && nd.Bool("prefix") {
			zz = true
			top.EGet(prefixes).(ecore.EMap).Put("zz", "http://p")
		}
	}
	ra.GetContents().Add(top)
	suppress := nd.Bool("suppress")
	if root == nil || suppress == (top == o) { // (paths of references depend on the document root)
		switch intn("ref", 3) {
		case 1:
			o.ESet(r, k)
		case 2:
			k.ESet(r, o)
		}
	}
	opts := map[string]any{ecore.XML_OPTION_SUPPRESS_DOCUMENT_ROOT: suppress}
	if nd.Bool("shared") {
		opts[ecore.XML_OPTION_EXTENDED_META_DATA] = ecore.NewExtendedMetaData()
	}
	var buf bytes.Buffer
	ecore.NewXMLEncoder(ra, &buf, opts).EncodeResource()
	nd.Log(buf.String())
	nd.Check(ra.GetErrors().Empty(), "a resource is written without error")
	ecore.NewXMLDecoder(rl, strings.NewReader(buf.String()), opts).DecodeResource()
	logErrors(rl)
	nd.Check(rl.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(rl.GetContents().Size() == 1, "a document has the root that was written")
	l := rl.GetContents().Get(0).(ecore.EObject)
	if l.EClass() == root {
		nd.Check(!suppress, "the document root is left out when asked")
		z, _ := l.EGet(rootFs[0]).(ecore.EObject)
		nd.Check(z != nil, "the document root holds the root")
		if prefixes != nil {
			m := l.EGet(prefixes).(ecore.EMap)
			nd.Check(zz == (m.GetValue("zz") == any("http://p")) && zz == (m.GetValue("p") == nil), "the document root has the prefixes of the document")
		}
		l = z
	} else {
		nd.Check(suppress || root == nil, "the document root is kept")
		nd.Check(l.EContainer() == nil, "the root is in nothing")
	}
	nd.Check(l.EClass() == o.EClass(), "a document has objects of the classes that were written")
	nd.Check(l.EGet(x) == "vx" && l.EGet(y) == nil || l.EGet(x) == "vx" && l.EGet(y) == "", "a document has the values that were written")
	nd.Check(sameSlice(viewS(l.EGet(tags).(ecore.EList)), []any{"t", "u"}), "a document has the values that were written")
	ls := l.EGet(kids).(ecore.EList)
	nd.Check(ls.Size() == 1, "a document has the children that were written")
	m := ls.Get(0).(ecore.EObject)
	nd.Check(m.EClass() == k.EClass(), "a document has objects of the classes that were written")
	nd.Check(m.EGet(y) == "vy" && !m.EIsSet(x), "a document has the values that were written")
	nd.Check((o.EGet(r) == nil) == (l.EGet(r) == nil) && (o.EGet(r) == nil || l.EGet(r) == m), "a document has the references that were written")
	nd.Check((k.EGet(r) == nil) == (m.EGet(r) == nil) && (k.EGet(r) == nil || m.EGet(r) == l), "a document has the references that were written")
}

// H_MetaNames: names of classes and features asked in any order.
func H_MetaNames() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	emd := ecore.NewExtendedMetaData()
	texts := []string{"A", "B", "", "a-1"}
	n := nd.Param("classes")
	if intn("what", 2) == 1 {
		c := f.CreateEClass()
		c.SetName("A")
		p.GetEClassifiers().Add(c)
		metaFeatures(emd, c)
		return
	}
	docs := []string{}
	cs := []ecore.EClassifier{}
	add := func() {
		i := len(cs)
		var c ecore.EClassifier
		if i == 1 {
			c = f.CreateEDataType()
		} else {
			c = f.CreateEClass()
		}
		doc := string(rune('A' + i))
		c.SetName(doc)
		switch k := intn("name", len(texts)+2); k {
		case 0:
		case 1:
			extended(c, "kind", "elementOnly")
		default:
			doc = texts[k-2]
			extended(c, "name", doc)
		}
		for _, d := range docs {
			nd.Assume(d != doc)
		}
		nd.Assume(doc != "" || i != 1) // (a document root is a class)
		cs, docs = append(cs, c), append(docs, doc)
		p.GetEClassifiers().Add(c)
	}
	for i := 0; i < n; i++ {
		add()
	}
	of := func(name string) ecore.EClassifier {
		for i, d := range docs {
			if d == name {
				return cs[i]
			}
		}
		return nil
	}
	for i := 0; i < nd.Param("steps"); i++ {
		switch op := intn("op", 4); op {
		case 0:
			name := []string{"A", "B", "C", "D", "", "a-1", "b"}[intn("look", 7)]
			nd.Check(emd.GetType(p, name) == of(name), "a class is found by its name in documents, and by no other")
		case 1:
			root, _ := of("").(ecore.EClass)
			nd.Check(emd.GetDocumentRoot(p) == root, "the document root is the class that has no name in documents")
		case 2:
			k := intn("of", len(cs))
			nd.Check(emd.GetName(cs[k]) == docs[k], "a class has its name in documents")
		case 3:
			nd.Assume(len(cs) == n)
			add()
		}
	}
	nd.Reach("names")
}

func metaFeatures(emd *ecore.ExtendedMetaData, at ecore.EClass) {
	f := ecore.GetFactory()
	sub := f.CreateEClass()
	sub.SetName("Sub")
	sub.GetESuperTypes().Add(at)
	t := f.CreateEReference()
	t.SetName("t")
	other := intn("type", 2) == 1
	if other {
		t.SetEType(ecore.GetPackage().GetEStringToStringMapEntry())
	} else {
		t.SetEType(at)
	}
	name, ns := "t", ""
	k := intn("fname", 4)
	kv := []string{}
	if k > 0 {
		name = []string{"x", "xmlns:prefix", "xsi:schemaLocation"}[k-1]
		kv = append(kv, "name", name)
	}
	switch intn("ns", 3) {
	case 1:
		kv, ns = append(kv, "namespace", "##targetNamespace"), "http://p"
	case 2:
		kv, ns = append(kv, "namespace", "http://q"), "http://q"
	}
	if len(kv) > 0 {
		extended(t, kv...)
	}
	at.GetEStructuralFeatures().Add(t)
	for i := 0; i < 2; i++ {
		if intn("first", 2) == i {
			nd.Check(emd.GetName(t) == name, "a feature has its name in documents")
		} else {
			nd.Check(emd.GetNamespace(t) == ns, "a feature has its namespace in documents")
		}
	}
	for _, c := range []ecore.EClass{at, sub} {
		nd.Check((emd.GetXMLNSPrefixMapFeature(c) == t) == (k == 2), "the map of prefixes of a class, inherited or not")
		nd.Check((emd.GetXSISchemaLocationMapFeature(c) == t) == (k == 3), "the map of locations of a class, inherited or not")
	}
	nd.Reach("names")
}
