package h

import (
	"bytes"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_XMLText"] = entry{Setup_XMLText, H_XMLText}
	All["H_XMLTree"] = entry{Setup_XMLText, H_XMLTree}
	All["H_XMLRefs"] = entry{Setup_XMLText, H_XMLRefs}
	All["H_XMLRefPairs"] = entry{Setup_XMLText, H_XMLRefPairs}
	All["H_XMLEcore"] = entry{nil, H_XMLEcore}
	All["H_XMLDangling"] = entry{Setup_XMLText, H_XMLDangling}
	All["H_XMLCross"] = entry{Setup_XMLText, H_XMLCross}
	All["H_XMLMixed"] = entry{Setup_XMLText, H_XMLMixed}
}

// xm is the metamodel of the documents: that of mm, with classes of other packages.
type xmT struct {
	packs   [3]ecore.EPackage
	classes []ecore.EClass // N, Sub of package 1, Sub of package 2
	abs     ecore.EClass
	any     ecore.EReference
	absRef  ecore.EReference
	conts   []ecore.EReference
	refs    []ecore.EReference
	attrs   []ecore.EAttribute
}

var xm *xmT

func buildXM() {
	mm = buildMM(false, true)
	x := &xmT{}
	f := ecore.GetFactory()
	x.packs[0] = mm.pkg
	x.classes = []ecore.EClass{mm.n}
	add := func(name string, t ecore.EClass, many bool) ecore.EReference {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(t)
		r.SetContainment(true)
		r.SetResolveProxies(true)
		if many {
			r.SetUpperBound(-1)
		}
		mm.n.GetEStructuralFeatures().Add(r)
		return r
	}
	x.abs = f.CreateEClass()
	x.abs.SetName("Abs")
	x.abs.SetAbstract(true)
	mm.pkg.GetEClassifiers().Add(x.abs)
	mm.n.GetESuperTypes().Add(x.abs)
	x.any = add("any", ecore.GetPackage().GetEObject(), true)
	x.absRef = add("abs", x.abs, false)
	for i := 1; i < 3; i++ {
		p := f.CreateEPackage()
		p.SetName("lib" + string(rune('0'+i)))
		p.SetNsURI("http://lib" + string(rune('0'+i)))
		p.SetNsPrefix(p.GetName())
		c := f.CreateEClass()
		c.SetName("Sub")
		c.GetESuperTypes().Add(mm.n)
		p.GetEClassifiers().Add(c)
		x.packs[i] = p
		x.classes = append(x.classes, c)
	}
	for it := x.classes[1].GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		switch t := it.Next().(type) {
		case ecore.EReference:
			if t.IsContainment() {
				x.conts = append(x.conts, t)
			} else {
				x.refs = append(x.refs, t)
			}
		case ecore.EAttribute:
			x.attrs = append(x.attrs, t)
		}
	}
	xm = x
}

func (x *xmT) new(k int) ecore.EObject {
	return x.classes[k].GetEPackage().GetEFactoryInstance().Create(x.classes[k])
}

func (x *xmT) set() *ecore.EResourceSetImpl {
	rs := ecore.NewEResourceSetImpl()
	for _, p := range x.packs {
		rs.GetPackageRegistry().RegisterPackage(p)
	}
	return rs
}

func newResource(rs ecore.EResourceSet, uri string) ecore.EResource {
	r := ecore.NewEResourceImpl()
	r.SetURI(ecore.NewURI(uri))
	rs.GetResources().Add(r)
	return r
}

// binary says that documents are in the binary format.
var binary bool

// someFormat chooses between XML and XMI.
func someFormat() bool { return !binary && nd.Bool("xmi") }

func xmlEncode(xmi bool, r ecore.EResource, opts map[string]any) string {
	var b bytes.Buffer
	if binary {
		ecore.NewBinaryEncoder(r, &b, opts).EncodeResource()
	} else if xmi {
		ecore.NewXMIEncoder(r, &b, opts).EncodeResource()
	} else {
		ecore.NewXMLEncoder(r, &b, opts).EncodeResource()
	}
	return b.String()
}

func xmlDecode(xmi bool, r ecore.EResource, doc string, opts map[string]any) {
	if binary {
		ecore.NewBinaryDecoder(r, bytes.NewReader([]byte(doc)), opts).DecodeResource()
	} else if xmi {
		ecore.NewXMIDecoder(r, strings.NewReader(doc), opts).DecodeResource()
	} else {
		ecore.NewXMLDecoder(r, strings.NewReader(doc), opts).DecodeResource()
	}
}

func Setup_XMLText()     { buildXM() }
func Setup_XMLTree()     { buildXM() }
func Setup_XMLRefs()     { buildXM() }
func Setup_XMLRefPairs() { buildXM() }
func Setup_XMLDangling() { buildXM() }
func Setup_XMLCross()    { buildXM() }
func Setup_XMLMixed()    { buildXM() }

// H_XMLText: texts in a document are those of the model.
func H_XMLText() {
	xmi := someFormat()
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	o := xm.new(0)
	r.GetContents().Add(o)
	s := nd.Str("s", intn("len", nd.Param("len")+1), "a &<>\"'\r\n\t]")
	if intn("wide", nd.Param("wide")) == 1 {
		s += "é"
	}
	var tags []any
	switch intn("where", nd.Param("where")) {
	case 0:
		o.ESet(mm.ft(fName), s)
	case 1:
		c := xm.new(0)
		c.ESet(mm.ft(fName), s)
		mm.list(o, fKids).Add(c)
	default:
		for i, n := 0, intn("n", 3); i <= n; i++ {
			t := any(s)
			if i > 0 {
				t = []any{"b", "", nil}[intn("t", 3)]
			}
			tags = append(tags, t)
		}
		mm.list(o, fTags).AddAll(ecore.NewBasicEList(tags))
	}
	doc := xmlEncode(xmi, r, nil)
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	l := newResource(rs, "m:/b.x")
	xmlDecode(xmi, l, doc, nil)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	p := l.GetContents().Get(0).(ecore.EObject)
	nd.Check(p.EGet(mm.ft(fName)) == o.EGet(mm.ft(fName)), "a text of an attribute is read as it was written")
	nd.Check(mm.list(p, fKids).Size() == mm.list(o, fKids).Size(), "a document has the children that were written")
	if !mm.list(o, fKids).Empty() {
		c, d := mm.list(o, fKids).Get(0).(ecore.EObject), mm.list(p, fKids).Get(0).(ecore.EObject)
		nd.Check(d.EGet(mm.ft(fName)) == c.EGet(mm.ft(fName)), "a text of an attribute is read as it was written")
	}
	nd.Check(sameSlice(viewS(mm.list(p, fTags)), tags), "the texts of a list are read as they were written")
}

// docOrder: the objects of a tree, containers first.
func docOrder(o ecore.EObject) []any {
	r := []any{o}
	if o.EClass() == xother {
		return r
	}
	for _, c := range xm.conts {
		if c.IsMany() {
			for _, x := range viewS(o.EGetResolve(c, false).(ecore.EList)) {
				r = append(r, docOrder(x.(ecore.EObject))...)
			}
		} else if x := o.EGetResolve(c, false); x != nil {
			r = append(r, docOrder(x.(ecore.EObject))...)
		}
	}
	return r
}

// target is what a reference of o to x leads to.
func target(o ecore.EObject, x any) any {
	if x == nil {
		return nil
	}
	return ecore.ResolveInObject(x.(ecore.EObject), o)
}

// sameModel: the objects l are those of k, read.
func sameModel(k, l []any, what string) {
	nd.Check(len(k) == len(l), what+" has as many objects as were written")
	for i := range k {
		a, b := k[i].(ecore.EObject), l[i].(ecore.EObject)
		nd.Check(a.EClass() == b.EClass(), what+" has objects of the classes that were written")
		for _, f := range xm.attrs {
			if f.IsMany() {
				nd.Check(sameSlice(viewS(a.EGet(f).(ecore.EList)), viewS(b.EGet(f).(ecore.EList))), what+" has the values that were written")
			} else {
				nd.Check(a.EGet(f) == b.EGet(f) && a.EIsSet(f) == b.EIsSet(f), what+" has the values that were written")
			}
		}
		for _, fs := range [][]ecore.EReference{xm.conts, xm.refs} {
			for _, f := range fs {
				if f.IsMany() {
					la, lb := viewS(a.EGetResolve(f, false).(ecore.EList)), viewS(b.EGetResolve(f, false).(ecore.EList))
					nd.Check(len(la) == len(lb), what+" has as many references as were written: "+f.GetName())
					for j := range la {
						nd.Check(indexOf(k, la[j]) == indexOf(l, target(b, lb[j])), what+" has the references that were written, in the same order: "+f.GetName())
					}
				} else {
					x, y := a.EGetResolve(f, false), b.EGet(f)
					nd.Check((x == nil) == (y == nil), what+" has the reference that was written: "+f.GetName())
					nd.Check(x == nil || indexOf(k, x) == indexOf(l, y), what+" refers to the object that was written: "+f.GetName())
				}
			}
		}
	}
}

// putIn contains c in p.
func putIn(p, c ecore.EObject, f ecore.EReference) {
	if f.IsMany() {
		ecoreListOf(p, f).Add(c)
	} else {
		nd.Assume(p.EGet(f) == nil)
		p.ESet(f, c)
	}
}

// xmlMode says how the documents are written and read, and whether objects have ids.
func xmlMode() (xmi bool, opts map[string]any, ids bool) {
	m := intn("mode", nd.Param("modes"))
	// the first modes are a choice among the others
	m = []int{0, 9, 2, 7, 4, 3, 1, 5, 6, 8, 10, 11, 12, 13, 14, 15}[m]
	opts = map[string]any{}
	if m&1 != 0 {
		opts[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
	}
	if m&2 != 0 {
		opts[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
	}
	return m&8 != 0, opts, m&4 != 0
}

// H_XMLTree: a tree of objects of several packages.
func H_XMLTree() {
	xmi := someFormat()
	switch intn("ns", nd.Param("ns")) {
	case 1: // the same prefix thrice
		xm.packs[1].SetNsPrefix("lib")
		xm.packs[2].SetNsPrefix("lib")
	case 2: // no prefix
		xm.packs[0].SetNsPrefix("")
		xm.packs[2].SetNsPrefix("")
	case 3: // a prefix that is given for others
		xm.packs[1].SetNsPrefix("lib")
		xm.packs[2].SetNsPrefix("lib_1")
	case 4:
		xm.packs[0].SetNsURI("http://lib?a=1&b='2'")
		xm.packs[1].SetNsURI("<>")
	case 5:
		xm.packs[1].SetNsPrefix("xsi")
		xm.packs[2].SetNsPrefix("xmi")
	}
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	var objs []ecore.EObject
	n := intn("n", nd.Param("n")) + 1
	for i := 0; i < n; i++ {
		o := xm.new(intn("class", 3))
		objs = append(objs, o)
		if i == 0 {
			r.GetContents().Add(o)
		} else {
			putIn(objs[intn("parent", i)], o, xm.conts[intn("cont", len(xm.conts))])
		}
	}
	o := objs[intn("o", n)]
	switch intn("attrs", nd.Param("attrs")) {
	case 1:
		o.ESet(mm.ft(fID), "i")
		o.ESet(mm.ft(fCount), -7)
		o.ESet(mm.ft(fName), "")
	case 2:
		o.ESet(mm.ft(fCount), 0)
		mm.list(o, fTags).AddAll(ecore.NewImmutableEList([]any{"t", "t"}))
		mm.list(o, fUTags).Add("u")
	}
	var opts map[string]any
	l := newResource(rs, "m:/b.x")
	if intn("ids", nd.Param("ids")) == 1 {
		opts = map[string]any{ecore.XML_OPTION_ID_ATTRIBUTE_NAME: "_id", ecore.BINARY_OPTION_ID_ATTRIBUTE: true}
		ids := ecore.NewIncrementalIDManager()
		for _, o := range objs {
			ids.Register(o)
		}
		r.SetObjectIDManager(ids)
		l.SetObjectIDManager(ecore.NewIncrementalIDManager())
	}
	doc := xmlEncode(xmi, r, opts)
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	xmlDecode(xmi, l, doc, opts)
	logErrors(l)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	a, b := docOrder(objs[0]), docOrder(l.GetContents().Get(0).(ecore.EObject))
	sameModel(a, b, "a document")
	for i := range a {
		if opts != nil {
			nd.Check(r.GetObjectIDManager().GetID(a[i].(ecore.EObject)) == l.GetObjectIDManager().GetID(b[i].(ecore.EObject)), "an object has the id that was written")
		}
	}
}

var xRefs = []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy}

func (x *xmT) refer(a ecore.EObject, f int, b ecore.EObject) {
	if mm.f[f].many {
		mm.list(a, f).Add(b)
	} else {
		a.ESet(mm.ft(f), b)
	}
}

// H_XMLRefs: references inside a document.
func H_XMLRefs() {
	xmi, opts, ids := xmlMode()
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	var objs []ecore.EObject
	n := nd.Param("n")
	shape := intn("shape", nd.Param("shapes"))
	for i := 0; i < n; i++ {
		o := xm.new(0)
		objs = append(objs, o)
		if i == 0 {
			r.GetContents().Add(o)
		} else {
			switch shape {
			case 0: // one after the other
				putIn(objs[0], o, mm.ft(fKids).(ecore.EReference))
			case 1: // one in the other
				putIn(objs[i-1], o, mm.ft(fChildren).(ecore.EReference))
			default:
				putIn(objs[0], o, mm.ft([]int{fKids, fChild, fChildren}[i%3]).(ecore.EReference))
			}
		}
		if ids {
			o.ESet(mm.ft(fID), []string{"a", "b", "c", "d"}[i])
		}
	}
	f := xRefs[intn("f", len(xRefs))]
	g := f
	if intn("two", nd.Param("two")) == 1 {
		g = xRefs[intn("g", len(xRefs))]
	}
	for i, m := 0, nd.Param("refs"); i < m; i++ {
		x := f
		if i == m-1 {
			x = g
		}
		xm.refer(objs[intn("a", n)], x, objs[intn("b", n)])
	}
	doc := xmlEncode(xmi, r, opts)
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	l := newResource(rs, "m:/b.x")
	xmlDecode(xmi, l, doc, opts)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	sameModel(docOrder(objs[0]), docOrder(l.GetContents().Get(0).(ecore.EObject)), "a document")
}

// H_XMLRefPairs: references of two features inside a document.
func H_XMLRefPairs() { H_XMLRefs() }

// H_XMLCross: references and containment between two documents.
func H_XMLCross() {
	xmi, opts, ids := xmlMode()
	rs := xm.set()
	uris := []string{"m:/d/a.x", []string{"m:/d/b.x", "m:/b.x", "s:b.x"}[intn("uri", nd.Param("uris"))]}
	ra, rb := newResource(rs, uris[0]), newResource(rs, uris[1])
	var objs []ecore.EObject
	for i := 0; i < 4; i++ {
		objs = append(objs, xm.new(0))
		if ids {
			objs[i].ESet(mm.ft(fID), []string{"a", "b", "c", "d"}[i])
		}
	}
	mm.list(objs[0], fKids).Add(objs[1])
	ra.GetContents().Add(objs[0])
	mm.list(objs[2], fChildren).Add(objs[3])
	rb.GetContents().Add(objs[2])
	switch intn("inside", 3) { // the second document holds a part of the first
	case 1:
		mm.list(objs[1], fKids).Add(objs[2])
		nd.Assume(objs[2].(ecore.EObjectInternal).EInternalResource() == rb)
	case 2:
		objs[0].ESet(mm.ft(fChild), objs[2])
	}
	f := xRefs[intn("f", len(xRefs))]
	for i, m := 0, nd.Param("refs"); i < m; i++ {
		xm.refer(objs[intn("a", 4)], f, objs[intn("b", 4)])
	}
	docs := []string{xmlEncode(xmi, ra, opts), xmlEncode(xmi, rb, opts)}
	nd.Check(ra.GetErrors().Empty() && rb.GetErrors().Empty(), "a resource is written without error")
	ls := xm.set()
	l := []ecore.EResource{newResource(ls, uris[0]), newResource(ls, uris[1])}
	first := intn("first", 2)
	xmlDecode(xmi, l[first], docs[first], opts)
	xmlDecode(xmi, l[1-first], docs[1-first], opts)
	for i := range l {
		nd.Check(l[i].GetErrors().Empty(), "a document that was written is read without error")
		nd.Check(l[i].GetContents().Size() == 1, "a document has the root that was written")
	}
	o := l[0].GetContents().Get(0).(ecore.EObject)
	p := l[1].GetContents().Get(0).(ecore.EObject)
	nd.Check(mm.list(o, fKids).Size() == 1 && mm.list(p, fChildren).Size() == 1, "a document has the children that were written")
	sameModel([]any{objs[0], objs[1], objs[2], objs[3]}, []any{o, mm.list(o, fKids).Get(0), p, mm.list(p, fChildren).Get(0)}, "a set of documents")
}

// H_XMLMixed: a list of references to objects of two documents.
func H_XMLMixed() {
	xmi, opts, ids := xmlMode()
	rs := xm.set()
	scheme := []string{"m:", "file://", "file:", "http://host"}[intn("uri", nd.Param("uris"))]
	uris := []string{scheme + "/d/a.x", scheme + "/d/b.x"}
	var rl []ecore.EResource
	var objs []ecore.EObject
	for i, u := range uris {
		rl = append(rl, newResource(rs, u))
		o, c := xm.new(0), xm.new(0)
		if ids {
			o.ESet(mm.ft(fID), []string{"a", "c"}[i])
			c.ESet(mm.ft(fID), []string{"b", "d"}[i])
		}
		mm.list(o, fKids).Add(c)
		rl[i].GetContents().Add(o)
		objs = append(objs, o, c)
	}
	f := []int{fRefs, fThings, fLinks, fLinkedBy}[intn("f", nd.Param("feats"))]
	a := objs[intn("a", 2)]
	for i, n := 0, nd.Param("refs"); i < n; i++ {
		xm.refer(a, f, objs[intn("b", 4)])
	}
	var docs []string
	for _, r := range rl {
		docs = append(docs, xmlEncode(xmi, r, opts))
		nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	}
	ls := xm.set()
	l := []ecore.EResource{newResource(ls, uris[0]), newResource(ls, uris[1])}
	var read []any
	first := intn("first", 2)
	xmlDecode(xmi, l[first], docs[first], opts)
	xmlDecode(xmi, l[1-first], docs[1-first], opts)
	for i := range l {
		nd.Check(l[i].GetErrors().Empty(), "a document that was written is read without error")
		nd.Check(l[i].GetContents().Size() == 1, "a document has the root that was written")
		o := l[i].GetContents().Get(0).(ecore.EObject)
		nd.Check(mm.list(o, fKids).Size() == 1, "a document has the children that were written")
		read = append(read, o, mm.list(o, fKids).Get(0))
	}
	sameModel([]any{objs[0], objs[1], objs[2], objs[3]}, read, "a set of documents")
}

// H_XMLDangling: references to objects that are in no document.
func H_XMLDangling() {
	xmi, opts, ids := xmlMode()
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	o, c := xm.new(0), xm.new(0)
	r.GetContents().Add(o)
	mm.list(o, fKids).Add(c)
	out, in := xm.new(0), xm.new(0)
	if ids {
		out.ESet(mm.ft(fID), "x")
	}
	f := xRefs[intn("f", len(xRefs))]
	if nd.Bool("below") {
		mm.list(in, fKids).Add(out)
	}
	second := nd.Bool("second") && mm.f[f].many
	xm.refer(o, f, out)
	if second {
		xm.refer(o, f, c)
	}
	xm.refer(c, fRef, o)
	doc := xmlEncode(xmi, r, opts)
	nd.Check(!r.GetErrors().Empty(), "a reference to an object in no resource is an error")
	l := newResource(rs, "m:/b.x")
	xmlDecode(xmi, l, doc, opts)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	t := docOrder(l.GetContents().Get(0).(ecore.EObject))
	nd.Check(len(t) == 2, "a document has the objects that were written")
	nd.Check(t[1].(ecore.EObject).EGet(mm.ft(fRef)) == t[0], "a document has the references that can be written")
}

// H_XMLEcore: a model of classes.
func H_XMLEcore() {
	xmi := someFormat()
	f := ecore.GetFactory()
	rs := ecore.NewEResourceSetImpl()
	r := newResource(rs, "m:/a.ecore")
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	p.SetNsPrefix("p")
	r.GetContents().Add(p)
	host := p
	if nd.Bool("sub") {
		host = f.CreateEPackage()
		host.SetName("q")
		host.SetNsURI("http://q")
		p.GetESubPackages().Add(host)
	}
	a, b := f.CreateEClass(), f.CreateEClass()
	a.SetName("A")
	b.SetName("B")
	if nd.Bool("order") {
		p.GetEClassifiers().Add(a)
		host.GetEClassifiers().Add(b)
	} else {
		host.GetEClassifiers().Add(b)
		p.GetEClassifiers().Add(a)
	}
	a.GetESuperTypes().Add(b)
	x := f.CreateEAttribute()
	x.SetName("x")
	switch intn("type", 3) {
	case 0:
		x.SetEType(ecore.GetPackage().GetEString())
		x.SetDefaultValueLiteral("a<b")
	case 1:
		x.SetEType(ecore.GetPackage().GetEInt())
		x.SetUpperBound(-1)
		x.SetUnique(false)
	default:
		e := f.CreateEEnum()
		e.SetName("E")
		for i, n := range []string{"l0", "l1"} {
			l := f.CreateEEnumLiteral()
			l.SetName(n)
			l.SetValue(i)
			e.GetELiterals().Add(l)
		}
		host.GetEClassifiers().Add(e)
		x.SetEType(e)
		x.SetDefaultValueLiteral("l1")
	}
	b.GetEStructuralFeatures().Add(x)
	switch intn("ref", 3) {
	case 0:
		y, z := f.CreateEReference(), f.CreateEReference()
		y.SetName("y")
		z.SetName("z")
		y.SetEType(b)
		z.SetEType(a)
		y.SetContainment(true)
		y.SetUpperBound(-1)
		a.GetEStructuralFeatures().Add(y)
		b.GetEStructuralFeatures().Add(z)
		y.SetEOpposite(z)
		z.SetEOpposite(y)
	case 1:
		y := f.CreateEReference()
		y.SetName("y")
		y.SetEType(ecore.GetPackage().GetEObject())
		y.SetResolveProxies(false)
		b.GetEStructuralFeatures().Add(y)
		y.GetEKeys().Add(x)
	default:
		o := f.CreateEOperation()
		o.SetName("o")
		o.SetEType(a)
		q := f.CreateEParameter()
		q.SetName("q")
		q.SetEType(ecore.GetPackage().GetEBoolean())
		o.GetEParameters().Add(q)
		a.GetEOperations().Add(o)
	}
	switch intn("ann", 3) {
	case 0:
		n := f.CreateEAnnotation()
		n.SetSource("s")
		n.GetDetails().Put("k", "v\n\"")
		n.GetDetails().Put("l", "")
		a.GetEAnnotations().Add(n)
	case 1:
		n := f.CreateEAnnotation()
		n.SetSource("http://s?a=1&b=2")
		c := f.CreateEClass()
		c.SetName("C")
		n.GetContents().Add(c)
		n.GetReferences().Add(x)
		n.GetReferences().Add(a)
		host.GetEAnnotations().Add(n)
	}
	doc := xmlEncode(xmi, r, nil)
	nd.Check(r.GetErrors().Empty(), "a resource is written without error")
	l := newResource(rs, "m:/b.ecore")
	xmlDecode(xmi, l, doc, nil)
	nd.Check(l.GetErrors().Empty(), "a document that was written is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was written")
	nd.Check(xmlEncode(xmi, l, nil) == doc, "a document that is read is written in the same way")
	for it := l.GetAllContents(); it.HasNext(); {
		if t, _ := it.Next().(ecore.ETypedElement); t != nil {
			nd.Check(t.GetEType() != nil && !t.GetEType().EIsProxy(), "the type of an element is found")
		}
	}
	nd.Check(ecore.Equals(p, l.GetContents().Get(0).(ecore.EObject)), "a model of classes is read as it was written")
}

func logErrors(r ecore.EResource) {
	for _, e := range viewS(r.GetErrors()) {
		nd.Log(e.(ecore.EDiagnostic).GetMessage())
	}
}
