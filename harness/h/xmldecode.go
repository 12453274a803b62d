package h

import (
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_XMLDecode"] = entry{Setup_XMLDecode, H_XMLDecode}
	All["H_XMLAttrs"] = entry{Setup_XMLAttrs, H_XMLAttrs}
	All["H_XMLRoot"] = entry{Setup_XMLRoot, H_XMLRoot}
	All["H_XMLContain"] = entry{Setup_XMLContain, H_XMLContain}
	All["H_XMLMutated"] = entry{Setup_XMLMutated, H_XMLMutated}
}

// xother is a class that is not that of the references of N.
var xother ecore.EClass

func setupDecode() {
	buildXM()
	f := ecore.GetFactory()
	xother = f.CreateEClass()
	xother.SetName("Other")
	a := f.CreateEAttribute()
	a.SetName("name")
	a.SetEType(ecore.GetPackage().GetEString())
	xother.GetEStructuralFeatures().Add(a)
	xm.packs[0].GetEClassifiers().Add(xother)
	e := f.CreateEEnum()
	e.SetName("E")
	for i, n := range []string{"l0", "l1"} {
		l := f.CreateEEnumLiteral()
		l.SetName(n)
		l.SetLiteral(n)
		l.SetValue(i)
		e.GetELiterals().Add(l)
	}
	xm.packs[0].GetEClassifiers().Add(e)
	b := f.CreateEAttribute()
	b.SetName("lit")
	b.SetEType(e)
	mm.n.GetEStructuralFeatures().Add(b)
}

func Setup_XMLDecode()  { setupDecode() }
func Setup_XMLAttrs()   { setupDecode() }
func Setup_XMLRoot()    { setupDecode() }
func Setup_XMLContain() { setupDecode() }
func Setup_XMLMutated() { setupDecode() }

// xnode is an element of a document and what it stands for.
type xnode struct {
	tag, attrs, text string
	kids             []*xnode // the elements it holds
	parent           *xnode
	q                string // what the prefix q stands for
	// what is read
	class ecore.EClass // nil when no object is read
	kind  int          // 0 object, 1 value, 2 nothing
	held  map[string][]*xnode
	vals  map[string][]any
	proxy string
	fuzzy bool // a value with elements
}

func (n *xnode) write(b *strings.Builder) {
	b.WriteString("<" + n.tag + n.attrs + ">")
	b.WriteString(n.text)
	for _, k := range n.kids {
		k.write(b)
	}
	b.WriteString("</" + n.tag + ">")
}

func (x *xmT) namespaces() string {
	return ` xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:lib="http://lib" xmlns:q="http://lib1"`
}

func newNode(c ecore.EClass) *xnode {
	return &xnode{class: c, held: map[string][]*xnode{}, vals: map[string][]any{}}
}

// someElement puts any element into p; bad says that it has an error.
func someElement(p *xnode, kinds int) (n *xnode, bad bool) {
	n = newNode(nil)
	n.parent = p
	n.q = p.q
	p.kids = append(p.kids, n)
	lib, lib1 := xm.classes[0], xm.classes[1]
	feature := ""
	k := intn("kind", kinds)
	if k >= 3 && nd.Bool("rebind") {
		nd.Assume(k == 3)
		n.q = "http://lib2"
		n.attrs = ` xmlns:q="` + n.q + `"`
		lib1 = xm.classes[2]
	} else if n.q == "http://lib2" {
		lib1 = xm.classes[2]
	}
	switch k {
	case 0:
		n.tag, n.class, feature = "kids", lib, "kids"
	case 1:
		n.tag, n.class, feature = "child", lib, "child"
	case 2:
		n.tag, n.text, n.kind, feature = "name", "t", 1, "name"
	case 3:
		n.tag, n.attrs, n.class, feature = "kids", n.attrs+` xsi:type="q:Sub"`, lib1, "kids"
	case 4:
		n.tag, n.text, n.kind, feature = "tags", "u", 1, "tags"
	case 5:
		n.tag, n.attrs, bad = "kids", ` xsi:type="lib:Nope"`, true
	case 6:
		n.tag, n.attrs, bad = "kids", ` xsi:type="zz:N"`, true
	case 7:
		n.tag, bad = "abs", true // an abstract class
	case 8:
		n.tag, n.text, bad = "nope", "t", true
	case 9:
		n.tag, n.attrs, n.class, n.proxy, feature = "next", ` href="o.x#a"`, lib, "m:/o.x#a", "next"
	case 10:
		n.tag, n.attrs, n.class, feature = "abs", ` xsi:type="lib:N"`, lib, "abs"
	case 11:
		n.tag, n.attrs, bad = "kids", ` xsi:type="lib:Other"`, true // not an N
	case 12:
		n.tag, n.attrs, n.class, feature = "any", ` xsi:type="lib:Other"`, xother, "any"
	case 13:
		n.tag, n.attrs, n.kind, feature = "name", ` xsi:nil="true"`, 1, "name"
	case 14:
		n.tag, n.attrs, bad = "kids", ` xsi:type="lib:Abs"`, true
	case 15:
		n.tag, n.attrs, bad = "any", ` xsi:type=":"`, true
	case 16:
		n.tag, n.text, n.kind, feature = "lit", "l1", 1, "lit"
	default:
		n.tag, n.text, bad = "lit", "zz", true // no literal
	}
	if bad {
		n.kind = 2
	}
	if p.kind != 0 || p.class == xother && feature != "name" { // it is not the content of an object
		p.fuzzy = true
		n.kind, n.class = 2, nil
		return n, true
	}
	switch n.kind {
	case 0:
		p.held[feature] = append(p.held[feature], n)
	case 1:
		v := any(n.text)
		if k == 16 {
			v = 1
		}
		if k == 13 {
			v = ""
		}
		p.vals[feature] = append(p.vals[feature], v)
		p.vals[feature+"!"] = append(p.vals[feature+"!"], n)
	}
	return n, bad
}

// check: o is the object that was read for n.
func (n *xnode) check(o ecore.EObject) {
	nd.Check(o.EClass() == n.class, "an element is read as an object of its class")
	if n.proxy != "" {
		nd.Check(o.EIsProxy() && o.(ecore.EObjectInternal).EProxyURI().String() == n.proxy, "an element with a location is read as a proxy")
	} else {
		nd.Check(!o.EIsProxy(), "an element without location is not read as a proxy")
	}
	for it := n.class.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		name := f.GetName()
		if a, _ := f.(ecore.EAttribute); a != nil {
			v := n.vals[name]
			for _, m := range n.vals[name+"!"] {
				if m.(*xnode).fuzzy {
					v = nil
				}
			}
			if f.IsMany() {
				nd.Check(v == nil && len(n.vals[name]) > 0 || sameSlice(viewS(o.EGet(f).(ecore.EList)), v), "the values of an object are those of its element")
			} else if len(v) > 0 {
				nd.Check(o.EGet(f) == v[len(v)-1], "the value of an object is that of its element")
			} else if len(n.vals[name]) == 0 {
				nd.Check(!o.EIsSet(f), "an object has no other values than those of its element")
			}
			continue
		}
		r := f.(ecore.EReference)
		h := n.held[name]
		if r.IsContainer() || !r.IsContainment() && name != "next" {
			continue
		}
		if f.IsMany() {
			l := viewS(o.EGetResolve(f, false).(ecore.EList))
			nd.Check(len(l) == len(h), "the contents of an object are those of its element")
			for i := range h {
				h[i].check(l[i].(ecore.EObject))
			}
		} else {
			x := o.EGetResolve(f, false)
			nd.Check((x != nil) == (len(h) > 0), "the contents of an object are those of its element")
			if x != nil {
				h[len(h)-1].check(x.(ecore.EObject))
			}
		}
	}
}

// decodeAny reads a document; what is read must be the tree of root.
func decodeAny(xmi bool, opts map[string]any, root *xnode, bad bool) ecore.EResource {
	var b strings.Builder
	root.write(&b)
	r := newResource(xm.set(), "m:/a.x")
	nd.Log(b.String())
	xmlDecode(xmi, r, b.String(), opts)
	nd.Check(r.GetErrors().Empty() != bad, "the errors of a document are reported")
	nd.Check(r.GetContents().Size() == 1, "a document has the root that was written")
	root.check(r.GetContents().Get(0).(ecore.EObject))
	return r
}

func xmlRoot(x string) *xnode {
	n := newNode(xm.classes[0])
	n.tag, n.attrs, n.q = "lib:N", xm.namespaces()+x, "http://lib1"
	return n
}

// H_XMLDecode: any elements.
func H_XMLDecode() {
	opts := map[string]any{}
	if nd.Bool("deferred") {
		opts[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
	}
	root := xmlRoot("")
	cur, errs := root, false
	for i, n := 0, nd.Param("n"); i < n; i++ {
		for cur != root && nd.Bool("close") {
			cur = cur.parent
		}
		m, bad := someElement(cur, nd.Param("kinds"))
		errs = errs || bad
		cur = m
	}
	decodeAny(false, opts, root, errs)
}

// H_XMLAttrs: any attribute.
func H_XMLAttrs() {
	opts := map[string]any{}
	if nd.Bool("deferred") {
		opts[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
	}
	root := xmlRoot("")
	k := newNode(xm.classes[0])
	k.tag, k.parent = "kids", root
	l := newNode(xm.classes[0])
	l.tag, l.parent = "child", k
	root.kids, k.kids = []*xnode{k}, []*xnode{l}
	root.held["kids"], k.held["child"] = []*xnode{k}, []*xnode{l}
	nodes := []*xnode{root, k, l}
	on := intn("on", 3)
	bad := false
	var f ecore.EReference
	var want []any // numbers of objects, or the locations of proxies
	classes := map[string]ecore.EClass{"m:/o.x#a": xm.classes[0], "m:/o.x#b": xm.classes[1], "m:/o.x#c": xm.classes[0]}
	switch c := intn("case", 6); c {
	case 0:
		nodes[on].attrs += ` nope="1"`
		bad = true
	case 1:
		nodes[on].attrs += ` name="v" tags="w"`
		nodes[on].vals["name"] = []any{"v"}
		// the values of a list are elements
	case 2:
		nodes[on].attrs += ` lit="l1"`
		nodes[on].vals["lit"] = []any{1}
	case 3:
		nodes[on].attrs += ` lit="l2"`
		bad = true
	default:
		f = mm.ft([]int{fRef, fRefs, fNext, fThings, fLinks}[intn("f", nd.Param("feats"))]).(ecore.EReference)
		n := 1
		if f.IsMany() {
			n = intn("n", nd.Param("n")+1)
		}
		var ids []string
		for i := 0; i < n; i++ {
			switch t := intn("t", nd.Param("ids")); t {
			case 0, 1, 2:
				ids = append(ids, []string{"#/", "#//@kids.0", "#//@kids.0/@child"}[t])
				if i := indexOf(want, t); i < 0 {
					want = append(want, t)
				}
			case 3:
				ids = append(ids, "#//@nope")
				bad = true
			case 4:
				ids = append(ids, "lib:N", "o.x#a")
				want = append(want, "m:/o.x#a")
			case 5:
				ids = append(ids, "zz:N", "o.x#a")
				bad = true
			case 6:
				ids = append(ids, "q:Sub", "o.x#b")
				want = append(want, "m:/o.x#b")
			case 7:
				ids = append(ids, "lib:Other", "o.x#a")
				bad = true
			case 8:
				ids = append(ids, "#//@kids.-1")
				bad = true
			case 9:
				ids = append(ids, "#"+`//@kids.0/@any.0`)
				bad = true
			case 10: // of the class of the feature
				ids = append(ids, "o.x#c")
				want = append(want, "m:/o.x#c")
			}
		}
		nodes[on].attrs += ` ` + f.GetName() + `="` + strings.Join(ids, " ") + `"`
	}
	if nd.Bool("other") { // what is not an N
		m := newNode(xother)
		m.tag, m.attrs, m.parent = "any", ` xsi:type="lib:Other"`, l
		l.kids = append(l.kids, m)
		l.held["any"] = append(l.held["any"], m)
		if bad && f != nil && strings.Contains(nodes[on].attrs, "@any.0") {
			nodes[on].attrs = strings.Replace(nodes[on].attrs, "//@kids.0/@any.0", "//@kids.0/@child/@any.0", -1)
		}
	}
	var b strings.Builder
	root.write(&b)
	nd.Log(b.String())
	r := newResource(xm.set(), "m:/a.x")
	xmlDecode(false, r, b.String(), opts)
	nd.Check(r.GetErrors().Empty() != bad, "the errors of a document are reported")
	nd.Check(r.GetContents().Size() == 1, "a document has the root that was written")
	o := r.GetContents().Get(0).(ecore.EObject)
	if f == nil {
		root.check(o)
		return
	}
	objs := []any{o, mm.list(o, fKids).Get(0)}
	objs = append(objs, objs[1].(ecore.EObject).EGet(mm.ft(fChild)))
	var got []any
	x := objs[on].(ecore.EObject)
	if f.IsMany() {
		got = viewS(x.EGetResolve(f, false).(ecore.EList))
	} else if y := x.EGetResolve(f, false); y != nil {
		got = []any{y}
	}
	nd.Check(len(got) == len(want), "the references of an object are those of its element")
	for i := range want {
		if t, ok := want[i].(int); ok {
			nd.Check(got[i] == objs[t], "a reference leads to the object it names")
		} else {
			p := got[i].(ecore.EObject)
			nd.Check(p.EIsProxy() && p.(ecore.EObjectInternal).EProxyURI().String() == want[i].(string), "a reference leads to the object it names")
			nd.Check(p.EClass() == classes[want[i].(string)], "a reference to another document is of the class it names, or that of its feature")
		}
	}
}

// H_XMLContain: contents given by attributes.
func H_XMLContain() {
	opts := map[string]any{}
	if nd.Bool("deferred") {
		opts[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
	}
	f := mm.ft([]int{fChild, fKids, fOnly, fChildren, fParent, fHolder}[intn("f", nd.Param("feats"))]).(ecore.EReference)
	at := [4]string{}
	on, to := intn("on", 4), intn("to", 4)
	at[on] = " " + f.GetName() + `="#` + []string{"r", "k", "c", "d"}[to] + `"`
	doc := "<lib:N" + xm.namespaces() + ` id="r"` + at[0] + `><kids id="k"` + at[1] + `><children id="c"` + at[2] + `/></kids><children id="d"` + at[3] + `/></lib:N>`
	r := newResource(xm.set(), "m:/a.x")
	xmlDecode(false, r, doc, opts)
	up := []int{-1, 0, 1, 0}
	in := func(a, b int) bool { // a is b or in b
		for a >= 0 && a != b {
			a = up[a]
		}
		return a == b
	}
	a, b := to, on
	if f.IsContainer() {
		a, b = on, to
	}
	// a container is given by the list that holds the object
	nd.Check(r.GetErrors().Empty() != (in(b, a) && (f != mm.ft(fParent) || len(opts) > 0)), "an object that would contain itself is an error")
	nd.Check(r.GetContents().Size() == 1, "a document has the root that was written")
	all := docsOf(r)
	nd.Check(len(all) == 4, "a document has the objects that were written")
	if !in(b, a) && (!f.IsContainer() || f == mm.ft(fHolder)) {
		var x, y ecore.EObject
		for _, o := range all {
			switch o.(ecore.EObject).EGet(mm.ft(fID)) {
			case []string{"r", "k", "c", "d"}[a]:
				x = o.(ecore.EObject)
			case []string{"r", "k", "c", "d"}[b]:
				y = o.(ecore.EObject)
			}
		}
		nd.Check(x.EContainer() == y, "an object is contained by what it is said to be in")
	}
}

// attributes of a root that are not features
var rootAttrs = []string{
	``,
	` xsi:schemaLocation="http://lib m:/lib.ecore"`,
	` xsi:noNamespaceSchemaLocation="m:/lib.ecore"`,
	` xmlns="http://nowhere"`,
}

// ways to write that the name is t
var rootTexts = []string{
	`<name>t</name>`,
	"\n  <name>t</name>\n",
	`<name><![CDATA[t]]></name>`,
	`<!-- c --><name><!-- c -->t</name><!-- c -->`,
	`<?pi x?><name>t<?pi x?></name>`,
	`<name>&#116;</name>`,
}

// H_XMLRoot: any root.
func H_XMLRoot() {
	xmi := nd.Bool("xmi")
	tags := []string{"lib:N", "lib:Nope", "lib:Abs", "zz:N", "N", "q:Sub", "lib:", "r:Sub"}
	t := tags[intn("tag", len(tags))]
	doc := "<" + t + xm.namespaces() + ` xmlns:r="http://nowhere"` + rootAttrs[intn("attr", len(rootAttrs))] + `><kids/>` + rootTexts[intn("text", len(rootTexts))] + `</` + t + ">"
	if nd.Bool("second") {
		doc += "<lib:N" + xm.namespaces() + "/>"
	}
	cut := intn("cut", 4)
	switch cut {
	case 1:
		doc = doc[:len(doc)-1]
	case 2:
		doc = doc[:strings.Index(doc, "</name>")]
	case 3:
		doc = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- c -->" + doc + "\n"
	}
	r := newResource(xm.set(), "m:/a.x")
	opts := map[string]any{}
	if nd.Bool("deferred") {
		opts[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
	}
	xmlDecode(xmi, r, doc, opts)
	good := t == "lib:N" || t == "q:Sub"
	if !good || cut == 1 || cut == 2 {
		nd.Check(!r.GetErrors().Empty(), "the errors of a document are reported")
	} else {
		nd.Check(r.GetErrors().Empty(), "a correct document has no error")
		nd.Check(!r.GetContents().Empty(), "a document has the root that was written")
		o := r.GetContents().Get(0).(ecore.EObject)
		nd.Check(mm.list(o, fKids).Size() == 1 && o.EGet(mm.ft(fName)) == "t", "the content of the root is read")
	}
	for _, x := range viewS(r.GetContents()) {
		nd.Check(x != nil && x.(ecore.EObject).EClass() != xm.abs, "a root is an object")
	}
	e, err := ecore.NewXMLDecoder(r, strings.NewReader(doc), nil).DecodeObject()
	nd.Check((err != nil) == !r.GetErrors().Empty(), "the errors of an object are reported")
	nd.Check(good == (e != nil) || cut != 0 && cut != 3 || strings.Contains(doc, "/>") && !good, "an object is read")
}

// H_XMLMutated: a document with any change of a character.
func H_XMLMutated() {
	doc := `<lib:N` + xm.namespaces() + ` id="a" next="#b" refs="#a #b"><kids id="b" xsi:type="q:Sub" ref="lib:N o.x#c"><name>n&lt;</name></kids><tags>t</tags></lib:N>`
	from := strings.Index(doc, ` id="a"`)
	if nd.Bool("root") {
		nd.Assume(nd.Param("all") == 1)
		from = 0
	}
	at := from + nd.Conc(nd.Int("at", 0, len(doc)-from-1))
	switch intn("how", 3) {
	case 0:
		doc = doc[:at] + nd.Str("c", 1, []string{"<&\"#a: ", "<>&\"'#/=a:; \x00\x80!"}[nd.Param("chars")]) + doc[at+1:]
	case 1:
		doc = doc[:at] + doc[at+1:]
	default:
		doc = doc[:at]
	}
	opts := map[string]any{}
	if nd.Bool("deferred") {
		opts[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
		opts[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
	}
	r := newResource(xm.set(), "m:/a.x")
	xmlDecode(false, r, doc, opts)
	_ = docsOf(r)
	if !strings.HasSuffix(doc, ">") {
		nd.Check(!r.GetErrors().Empty(), "a truncated document is an error")
	}
}

// docsOf: the objects of a resource; every object is in the object that holds it.
func docsOf(r ecore.EResource) []any {
	var all []any
	for _, x := range viewS(r.GetContents()) {
		nd.Check(x.(ecore.EObject).EResource() == r, "a root is in its resource")
		all = append(all, docOrder(x.(ecore.EObject))...)
	}
	for _, x := range all {
		for _, c := range xm.conts {
			if x.(ecore.EObject).EClass() == xother {
				continue
			}
			v := x.(ecore.EObject).EGetResolve(c, false)
			if l, _ := v.(ecore.EList); l != nil {
				for _, y := range viewS(l) {
					nd.Check(y.(ecore.EObject).EContainer() == x, "an object is in its container")
				}
			} else if v != nil {
				nd.Check(v.(ecore.EObject).EContainer() == x, "an object is in its container")
			}
		}
	}
	return all
}
