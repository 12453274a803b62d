package h

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Documents"] = entry{Setup_Documents, H_Documents}
	All["H_DocumentChain"] = entry{Setup_DocumentChain, H_DocumentChain}
	All["H_Processor"] = entry{Setup_Processor, H_Processor}
	All["H_DocumentErrors"] = entry{Setup_DocumentErrors, H_DocumentErrors}
}

func Setup_Documents()      { buildXM() }
func Setup_DocumentChain()  { buildXM() }
func Setup_Processor()      { buildXM() }
func Setup_DocumentErrors() { buildXM() }

// docFiles is a file system: the files of the scheme "m".
type docFiles struct {
	files        map[string]*docFile
	reads        map[string]int
	open, closed int
}

type docFile struct{ b bytes.Buffer }

func newDocFiles() *docFiles { return &docFiles{files: map[string]*docFile{}, reads: map[string]int{}} }

func (d *docFiles) text(u string) string {
	if f := d.files[u]; f != nil {
		return f.b.String()
	}
	return ""
}

type docStream struct {
	d *docFiles
	r io.Reader
	w io.Writer
}

func (s *docStream) Read(p []byte) (int, error)  { return s.r.Read(p) }
func (s *docStream) Write(p []byte) (int, error) { return s.w.Write(p) }
func (s *docStream) Close() error                { s.d.closed++; return nil }

func (d *docFiles) CanHandle(u *ecore.URI) bool { return u.Scheme() == "m" }
func (d *docFiles) CreateReader(u *ecore.URI) (io.ReadCloser, error) {
	f := d.files[u.String()]
	if f == nil {
		return nil, errors.New("no file")
	}
	d.open++
	d.reads[u.String()]++
	return &docStream{d: d, r: strings.NewReader(f.b.String())}, nil
}
func (d *docFiles) CreateWriter(u *ecore.URI) (io.WriteCloser, error) {
	if strings.HasPrefix(u.Path(), "/ro/") {
		return nil, errors.New("no access")
	}
	f := &docFile{}
	d.files[u.String()] = f
	d.open++
	return &docStream{d: d, w: &f.b}, nil
}

// docConverter gives the streams of d.
type docConverter struct {
	*ecore.EURIConverterImpl
	d *docFiles
}

func (c *docConverter) GetURIHandler(u *ecore.URI) ecore.EURIHandler {
	if c.d.CanHandle(u) {
		return c.d
	}
	return nil
}
func (c *docConverter) CreateReader(u *ecore.URI) (io.ReadCloser, error) {
	n := c.Normalize(u)
	if h := c.GetURIHandler(n); h != nil {
		return h.CreateReader(n)
	}
	return nil, errors.New("no handler")
}
func (c *docConverter) CreateWriter(u *ecore.URI) (io.WriteCloser, error) {
	n := c.Normalize(u)
	if h := c.GetURIHandler(n); h != nil {
		return h.CreateWriter(n)
	}
	return nil, errors.New("no handler")
}

// docSet is a resource set on the files of d.
func docSet(d *docFiles) *ecore.EResourceSetImpl {
	rs := xm.set()
	rs.SetURIConverter(&docConverter{ecore.NewEURIConverterImpl(), d})
	reg := ecore.NewECodecRegistryImpl()
	m := reg.GetExtensionToCodecMap()
	m["xml"] = &ecore.XMLCodec{}
	m["ecore"] = &ecore.XMICodec{}
	m["bin"] = &ecore.BinaryCodec{}
	rs.SetCodecRegistry(reg)
	return rs
}

var docExts = [][2]string{{"xml", "xml"}, {"ecore", "bin"}, {"bin", "xml"}, {"bin", "bin"}, {"xml", "ecore"}, {"ecore", "ecore"}}

func noErrors(r ecore.EResource, what string) {
	logErrors(r)
	nd.Check(r.GetErrors().Empty() && r.GetWarnings().Empty(), what)
}

// H_Documents: two documents saved at their URIs, read by another set.
func H_Documents() {
	d := newDocFiles()
	e := docExts[intn("ext", nd.Param("exts"))]
	uris := []string{"m:/d/a." + e[0], []string{"m:/d/b.", "m:/d/e/b.", "m:/b.", "l:/d/b."}[intn("uri", nd.Param("uris"))] + e[1]}
	mapped := func(rs *ecore.EResourceSetImpl) *ecore.EResourceSetImpl {
		rs.GetURIConverter().GetURIMap()[*ecore.NewURI("l:")] = *ecore.NewURI("m:")
		return rs
	}
	rs := mapped(docSet(d))
	rl := []ecore.EResource{rs.CreateResource(ecore.NewURI(uris[0])), rs.CreateResource(ecore.NewURI(uris[1]))}
	var objs []ecore.EObject
	ids := nd.Bool("ids")
	for i := 0; i < 4; i++ {
		objs = append(objs, xm.new([]int{0, 1, 0, 2}[i]))
		if ids {
			objs[i].ESet(mm.ft(fID), []string{"a", "b", "c", "d"}[i])
		} else {
			objs[i].ESet(mm.ft(fName), []string{"a", "b", "c", "d"}[i])
		}
	}
	mm.list(objs[0], fKids).Add(objs[1])
	mm.list(objs[2], fChildren).Add(objs[3])
	rl[0].GetContents().Add(objs[0])
	rl[1].GetContents().Add(objs[2])
	inside := intn("inside", 3)
	switch inside { // the second document holds a part of the first
	case 1:
		mm.list(objs[1], fKids).Add(objs[2])
	case 2:
		objs[0].ESet(mm.ft(fChild), objs[2])
	}
	f := xRefs[intn("f", nd.Param("feats"))]
	for i, m := 0, nd.Param("refs"); i < m; i++ {
		xm.refer(objs[intn("a", 4)], f, objs[intn("b", 4)])
	}
	saved := func(rl []ecore.EResource) {
		for _, r := range rl {
			r.Save()
			noErrors(r, "a resource is saved without error")
		}
		nd.Check(d.open == d.closed, "the streams of a resource are closed")
	}
	saved(rl)
	norm := []string{uris[0], "m" + uris[1][1:]}
	texts := []string{d.text(norm[0]), d.text(norm[1])}
	nd.Check(len(d.files) == 2 && texts[0] != "" && texts[1] != "", "a resource is saved at its URI")

	// read
	ls := mapped(docSet(d))
	first := intn("first", 2)
	var o, p ecore.EObject
	l := make([]ecore.EResource, 2)
	read := func(i int) {
		l[i] = ls.GetResource(ecore.NewURI(uris[i]), true)
		nd.Check(l[i] != nil && l[i].GetContents().Size() == 1, "a document has the root that was saved")
	}
	if nd.Bool("object") { // the object of a URI
		x := ls.GetEObject(ecore.NewURI(uris[first]+"#"+rl[first].GetURIFragment(objs[2*first+1])), true)
		nd.Check(x != nil && x.EGet(mm.ft(fName)) == objs[2*first+1].EGet(mm.ft(fName)) && x.EGet(mm.ft(fID)) == objs[2*first+1].EGet(mm.ft(fID)), "an object is found in the document of its URI")
		nd.Check(x.EResource() == ls.GetResource(ecore.NewURI(uris[first]), false), "an object is in the resource of its URI")
		nd.Check(x.EClass() == objs[2*first+1].EClass(), "an object is found in the document of its URI")
	}
	read(first)
	root := l[first].GetContents().Get(0).(ecore.EObject)
	if first == 0 {
		o = root
	} else {
		p = root
	}
	if inside != 0 && first == 0 && nd.Bool("demand") {
		// the rest is reached through references
		if inside == 1 {
			k := mm.list(o, fKids).Get(0).(ecore.EObject)
			p, _ = target(k, mm.list(k, fKids).Get(0)).(ecore.EObject)
		} else {
			p, _ = o.EGet(mm.ft(fChild)).(ecore.EObject)
		}
		nd.Check(p != nil && !p.EIsProxy(), "an object of another document is read on demand")
		nd.Check(ls.GetResource(ecore.NewURI(uris[1]), false) != nil && p.EResource() == ls.GetResource(ecore.NewURI(uris[1]), false), "an object is in the resource of its document")
	} else {
		read(1 - first)
		if first == 0 {
			p = l[1].GetContents().Get(0).(ecore.EObject)
		} else {
			o = l[0].GetContents().Get(0).(ecore.EObject)
		}
	}
	nd.Check(mm.list(o, fKids).Size() == 1 && mm.list(p, fChildren).Size() == 1, "a document has the children that were saved")
	sameModel([]any{objs[0], objs[1], objs[2], objs[3]}, []any{o, mm.list(o, fKids).Get(0), p, mm.list(p, fChildren).Get(0)}, "a set of documents")
	nd.Check(ls.GetResources().Size() == 2, "a document is read in one resource")
	for i := range l {
		l[i] = ls.GetResource(ecore.NewURI(uris[i]), false)
		nd.Check(l[i] != nil && l[i].IsLoaded() && !l[i].IsLoading(), "a document that is read is loaded")
		noErrors(l[i], "a document that was saved is read without error")
		nd.Check(d.reads[norm[i]] == 1, "a document is read once")
	}
	nd.Check(d.open == d.closed, "the streams of a resource are closed")
	// saved again
	saved(l)
	nd.Check(len(d.files) == 2, "a document that is read is saved at its URI")
	for i := range norm {
		nd.Check(e[i] == "bin" || d.text(norm[i]) == texts[i], "a document that is read is saved in the same way")
	}
	if e[0] == "bin" || e[1] == "bin" {
		ls = mapped(docSet(d))
		o = ls.GetResource(ecore.NewURI(uris[0]), true).GetContents().Get(0).(ecore.EObject)
		p = ls.GetResource(ecore.NewURI(uris[1]), true).GetContents().Get(0).(ecore.EObject)
		sameModel([]any{objs[0], objs[1], objs[2], objs[3]}, []any{o, mm.list(o, fKids).Get(0), p, mm.list(p, fChildren).Get(0)}, "a set of documents saved again")
	}
}

// H_DocumentChain: documents that refer to each other, read as their references are followed.
func H_DocumentChain() {
	d := newDocFiles()
	n := nd.Param("n")
	x := intn("x", 3)
	ids := nd.Bool("ids")
	rs := docSet(d)
	var rl []ecore.EResource
	var objs []ecore.EObject
	var uris []string
	for i := 0; i < n; i++ {
		// resources in folders of their own
		u := "m:/" + []string{"", "d/", "d/e/"}[i%3] + string(rune('a'+i)) + "." + []string{"xml", "ecore", "bin"}[(i+x)%3]
		r := rs.CreateResource(ecore.NewURI(u))
		o, c := xm.new(i%3), xm.new(0)
		for j, v := range []ecore.EObject{o, c} {
			s := string(rune('a'+i)) + string(rune('0'+j))
			v.ESet(mm.ft(fName), s)
			if ids {
				v.ESet(mm.ft(fID), s)
			}
		}
		mm.list(o, fKids).Add(c)
		r.GetContents().Add(o)
		rl, objs, uris = append(rl, r), append(objs, o, c), append(uris, u)
	}
	f := []int{fRef, fNext, fOwner}[intn("f", 3)]
	next := make([]int, len(objs)) // 0: none
	inner := intn("inner", 2)
	for i := 0; i < n; i++ { // the object i of each document refers to one of another document
		k := intn("to", 2*n+1)
		next[2*i+inner] = k
		if k > 0 {
			if f == fNext {
				nd.Assume(objs[k-1].EGetResolve(mm.ft(fPrev), false) == nil)
			}
			xm.refer(objs[2*i+inner], f, objs[k-1])
		}
	}
	for _, r := range rl {
		r.Save()
		noErrors(r, "a resource is saved without error")
	}
	ls := docSet(d)
	root := func(i int) ecore.EObject {
		r := ls.GetResource(ecore.NewURI(uris[i]), false)
		nd.Check(r != nil && r.IsLoaded() && r.GetContents().Size() == 1, "a document is read with its root")
		noErrors(r, "a document that was saved is read without error")
		return r.GetContents().Get(0).(ecore.EObject)
	}
	object := func(i int) ecore.EObject {
		o := root(i / 2)
		if i%2 == 1 {
			o = mm.list(o, fKids).Get(0).(ecore.EObject)
		}
		return o
	}
	read := make([]int, n)
	check := func() {
		for i := range uris {
			nd.Check(d.reads[uris[i]] == read[i], "a document is read when a reference to it is followed, once")
			nd.Check((ls.GetResource(ecore.NewURI(uris[i]), false) != nil) == (read[i] > 0), "a document has a resource when it is read")
		}
		nd.Check(d.open == d.closed, "the streams of a resource are closed")
	}
	nd.Check(ls.GetResource(ecore.NewURI(uris[0]), true) != nil, "a document is read on demand")
	read[0] = 1
	check()
	walk := func() {
		for i, s := inner, 0; s <= n; s++ {
			o := object(i)
			k := next[i]
			nd.Check(o.EIsSet(mm.ft(f)) == (k > 0), "a reference is read as it was saved")
			if k == 0 {
				check()
				break
			}
			t, _ := o.EGet(mm.ft(f)).(ecore.EObject)
			if read[(k-1)/2] == 0 {
				read[(k-1)/2] = 1
			}
			check()
			nd.Check(t == object(k-1) && t.EResource() == ls.GetResource(ecore.NewURI(uris[(k-1)/2]), false), "a reference leads to the object of the other document")
			nd.Check(t.EGet(mm.ft(fName)) == objs[k-1].EGet(mm.ft(fName)) && t.EClass() == objs[k-1].EClass(), "a reference leads to the object of the other document")
			if nd.Param("unload") == 0 {
				for _, g := range []int{fPrev, fThings} {
					if op := mm.f[f].opp; op == g {
						nd.Check(!t.EIsSet(mm.ft(g)) == !objs[k-1].EIsSet(mm.ft(g)), "an opposite is read as it was saved")
					}
				}
			}
			i = k - 1
			if i%2 != inner {
				break
			}
		}
	}
	walk()
	if nd.Param("unload") == 0 {
		return
	}
	// a document that is unloaded is read again
	i := intn("unload", n)
	r := ls.GetResource(ecore.NewURI(uris[i]), false)
	if r == nil {
		return
	}
	r.Unload()
	nd.Check(!r.IsLoaded() && r.GetContents().Empty(), "a resource that is unloaded has no contents")
	if nd.Bool("load") {
		r.Load()
	} else {
		nd.Check(ls.GetResource(ecore.NewURI(uris[i]), true) == r, "a document is read in its resource")
	}
	read[i]++
	check()
	noErrors(r, "a document that was saved is read without error")
	k := docOrder(object(2 * i))
	nd.Check(len(k) == 2 && k[0].(ecore.EObject).EGet(mm.ft(fName)) == objs[2*i].EGet(mm.ft(fName)) && k[1].(ecore.EObject).EGet(mm.ft(fName)) == objs[2*i+1].EGet(mm.ft(fName)), "a document is read again as it was saved")
	if j := 2*i + inner; next[j] > 0 {
		t := target(object(j), object(j).EGetResolve(mm.ft(f), false)).(ecore.EObject)
		read[(next[j]-1)/2] = d.reads[uris[(next[j]-1)/2]]
		nd.Check(t == object(next[j]-1), "a document that is read again refers to the same objects")
	}
}

// H_Processor: a processor reads what it saves.
func H_Processor() {
	d := newDocFiles()
	rs, ls := docSet(d), docSet(d)
	xmi := nd.Bool("xmi")
	var save, load *ecore.XMLProcessor
	uri := ecore.NewURI("m:/a.xml")
	if xmi {
		uri = ecore.NewURI("m:/a.ecore")
		save = &ecore.NewXMIProcessor(ecore.XMIProcessorResourceSet(rs)).XMLProcessor
		load = &ecore.NewXMIProcessor(ecore.XMIProcessorResourceSet(ls)).XMLProcessor
	} else {
		save = ecore.NewXMLProcessor(ecore.XMLProcessorResourceSet(rs))
		load = ecore.NewXMLProcessor(ecore.XMLProcessorResourceSet(ls))
	}
	nd.Check(save.GetResourceSet() == ecore.EResourceSet(rs), "a processor works in the resource set it was given")
	var objs []ecore.EObject
	n := intn("n", nd.Param("n")) + 1
	for i := 0; i < n; i++ {
		o := xm.new(intn("class", nd.Param("classes")))
		o.ESet(mm.ft(fName), []string{"a", "<&\"", " "}[i])
		if i > 0 {
			putIn(objs[intn("parent", i)], o, xm.conts[intn("cont", nd.Param("conts"))])
		}
		objs = append(objs, o)
	}
	f := xRefs[intn("f", nd.Param("feats"))]
	xm.refer(objs[intn("a", n)], f, objs[intn("b", n)])
	var opts map[string]any
	switch intn("opts", 3) {
	case 1:
		opts = map[string]any{}
	case 2:
		opts = map[string]any{ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION: true, ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT: true}
	}
	no := len(opts)
	var r, l ecore.EResource
	var doc string
	how := intn("how", 5)
	if how == 4 { // a copy of the object
		holder := xm.new(0)
		if nd.Bool("held") {
			mm.list(holder, fKids).Add(objs[0])
		}
		was := objs[0].EContainer()
		r = save.SaveObject(uri, objs[0])
		nd.Check(r != nil, "an object is saved in a resource")
		nd.Check(objs[0].EContainer() == was && objs[0].EResource() == nil, "an object that is saved stays in its place")
		nd.Check(r.GetContents().Size() == 1 && r.GetContents().Get(0) != any(objs[0]), "a copy of an object is saved")
	} else {
		r = rs.CreateResource(uri)
		r.GetContents().Add(objs[0])
		switch how {
		case 0:
			save.Save(r)
		case 1:
			save.SaveWithOptions(r, opts)
		case 2:
			var b bytes.Buffer
			save.SaveWithWriter(&b, r, opts)
			doc = b.String()
		case 3:
			doc = save.SaveToString(r, opts)
		}
		nd.Check(r.GetContents().Size() == 1 && r.GetContents().Get(0) == any(objs[0]), "a resource that is saved keeps its contents")
	}
	noErrors(r, "a resource is saved without error")
	nd.Check((doc == "") == (how != 2 && how != 3) && (d.text(uri.String()) == "") == (doc != ""), "a resource is saved where it is asked")
	if doc == "" {
		doc = d.text(uri.String())
	}
	switch intn("read", 3) {
	case 0:
		l = func() ecore.EResource {
			if xmi {
				return ecore.NewXMIProcessor(ecore.XMIProcessorResourceSet(ls)).LoadWithReader(strings.NewReader(doc), opts)
			}
			return load.LoadWithReader(strings.NewReader(doc), opts)
		}()
	case 1:
		nd.Assume(how != 2 && how != 3)
		l = load.Load(uri)
	default:
		nd.Assume(how != 2 && how != 3)
		l = load.LoadWithOptions(uri, opts)
	}
	nd.Check(len(opts) == no, "options are left as they are")
	nd.Check(l != nil && l.IsLoaded() && l.GetResourceSet() == ecore.EResourceSet(ls), "a document is read in the resource set of the processor")
	noErrors(l, "a document that was saved is read without error")
	nd.Check(l.GetContents().Size() == 1, "a document has the root that was saved")
	nd.Check(d.open == d.closed, "the streams of a resource are closed")
	sameModel(docOrder(objs[0]), docOrder(l.GetContents().Get(0).(ecore.EObject)), "a document")
	if how != 4 {
		// written the same by the reader
		again := load.SaveToString(l, opts)
		nd.Check(again == doc, "a document that is read is saved in the same way")
	}
}

// H_DocumentErrors: documents that cannot be read or saved.
func H_DocumentErrors() {
	d := newDocFiles()
	uri := ecore.NewURI([]string{"m:/a.xml", "m:/a.ecore", "m:/a.bin", "m:/a.other", "m:/ro/a.xml", "n:/a.xml"}[intn("uri", 6)])
	can := uri.Scheme() == "m" && !strings.HasSuffix(uri.Path(), "other")
	rs := docSet(d)
	r := rs.CreateResource(uri)
	o := xm.new(0)
	o.ESet(mm.ft(fName), "n")
	r.GetContents().Add(o)
	dangling := !strings.HasSuffix(uri.Path(), "bin") && nd.Bool("dangling")
	if dangling {
		o.ESet(mm.ft(fRef), xm.new(0))
	}
	r.Save()
	canSave := can && !strings.HasPrefix(uri.Path(), "/ro/")
	nd.Check(r.GetErrors().Empty() == (canSave && !dangling), "a resource that cannot be saved has an error")
	nd.Check(d.open == d.closed, "the streams of a resource are closed")
	if dangling {
		o.EUnset(mm.ft(fRef))
		r.Save()
		nd.Check(r.GetErrors().Empty() == canSave, "the errors of a resource are those of the last operation")
	}
	nd.Check(r.GetContents().Size() == 1 && o.EResource() == r, "a resource that is saved keeps its contents")
	good := d.text(uri.String())
	f := d.files[uri.String()]
	// the file changes
	bad := intn("bad", 4)
	switch bad {
	case 1:
		delete(d.files, uri.String())
	case 2:
		if f != nil {
			f.b.Reset()
		}
	case 3:
		if f != nil {
			f.b.Reset()
			f.b.WriteString(good[:len(good)/2])
		}
	}
	if bad == 2 && !strings.HasSuffix(uri.Path(), "bin") { // a resource without contents
		return
	}
	fine := canSave && bad == 0
	ls := docSet(d)
	u := uri
	if nd.Bool("fragment") {
		u = ecore.NewURI(uri.String() + "#//")
	}
	var l ecore.EResource
	if u == uri {
		l = ls.GetResource(uri, true)
	} else {
		x := ls.GetEObject(u, true)
		nd.Check(x == nil || fine || bad == 3, "no object is found in a document that cannot be read")
		l = ls.GetResource(uri, false)
	}
	nd.Check(l != nil && l.GetURI().Equals(uri), "a document has a resource")
	nd.Check(fine == l.GetErrors().Empty(), "a document that cannot be read is an error")
	nd.Check(d.open == d.closed, "the streams of a resource are closed")
	nd.Check(!l.IsLoading(), "a resource that was read is not loading")
	if fine {
		nd.Check(l.GetContents().Size() == 1 && l.GetContents().Get(0).(ecore.EObject).EGet(mm.ft(fName)) == any("n"), "a document is read as it was saved")
	}
	nd.Check(l.GetErrors().Empty() || l.GetErrors().Get(0).(ecore.EDiagnostic).GetMessage() != "", "an error has a message")
	if !fine && canSave {
		// the file is there again
		if d.files[uri.String()] == nil {
			d.files[uri.String()] = &docFile{}
		}
		g := d.files[uri.String()]
		g.b.Reset()
		g.b.WriteString(good)
		l.Unload()
		nd.Check(!l.IsLoaded() && l.GetContents().Empty(), "a resource that is unloaded has no contents")
		m := ls.GetResource(uri, true)
		nd.Check(m == l && l.IsLoaded(), "a document is read in its resource")
		noErrors(l, "the errors of a resource are those of the last operation")
		nd.Check(l.GetContents().Size() == 1 && l.GetContents().Get(0).(ecore.EObject).EGet(mm.ft(fName)) == any("n"), "a document is read as it was saved")
	}
}
