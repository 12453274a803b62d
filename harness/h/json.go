package h

import (
	"bytes"
	"strconv"
	"unicode/utf8"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_JSONText"] = entry{Setup_JSONText, H_JSONText}
	All["H_JSONTree"] = entry{Setup_JSONTree, H_JSONTree}
	All["H_JSONRefs"] = entry{Setup_JSONRefs, H_JSONRefs}
}

// jv is a value of JSON.
type jv struct {
	kind byte // s, o, a, or another one
	s    string
	vals []*jv
	keys []string
}

func (v *jv) get(key string) *jv {
	for i, k := range v.keys {
		if k == key {
			return v.vals[i]
		}
	}
	return nil
}

type jparser struct {
	s string
	i int
}

// parseJSON reads a text as RFC 8259 says; it is nil when it is not one.
func parseJSON(s string) *jv {
	p := &jparser{s: s}
	v := p.value()
	p.space()
	if v == nil || p.i != len(p.s) {
		return nil
	}
	return v
}

func (p *jparser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) next(c byte) bool {
	p.space()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *jparser) value() *jv {
	switch {
	case p.next('"'):
		s, ok := p.text()
		if !ok {
			return nil
		}
		return &jv{kind: 's', s: s}
	case p.next('['):
		v := &jv{kind: 'a'}
		if p.next(']') {
			return v
		}
		for {
			x := p.value()
			if x == nil {
				return nil
			}
			v.vals = append(v.vals, x)
			if p.next(']') {
				return v
			}
			if !p.next(',') {
				return nil
			}
		}
	case p.next('{'):
		v := &jv{kind: 'o'}
		if p.next('}') {
			return v
		}
		for {
			if !p.next('"') {
				return nil
			}
			k, ok := p.text()
			if !ok || v.get(k) != nil || !p.next(':') {
				return nil
			}
			x := p.value()
			if x == nil {
				return nil
			}
			v.keys, v.vals = append(v.keys, k), append(v.vals, x)
			if p.next('}') {
				return v
			}
			if !p.next(',') {
				return nil
			}
		}
	}
	return nil // numbers and names are not written
}

func (p *jparser) text() (string, bool) {
	var b []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(b), utf8.ValidString(string(b))
		case c < 0x20:
			return "", false
		case c != '\\':
			b = append(b, c)
		default:
			if p.i == len(p.s) {
				return "", false
			}
			c = p.s[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				b = append(b, c)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				var r rune
				for j := 0; j < 4; j++ {
					if p.i == len(p.s) {
						return "", false
					}
					d := p.s[p.i]
					p.i++
					switch {
					case d >= '0' && d <= '9':
						r = r<<4 | rune(d-'0')
					case d >= 'a' && d <= 'f':
						r = r<<4 | rune(d-'a'+10)
					case d >= 'A' && d <= 'F':
						r = r<<4 | rune(d-'A'+10)
					default:
						return "", false
					}
				}
				b = append(b, string(r)...)
			default:
				return "", false
			}
		}
	}
	return "", false
}

// utf8Text is a text as a document can hold it.
func utf8Text(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b = append(b, string(r)...)
		i += n
	}
	return string(b)
}

func idText(id any) string {
	if i, ok := id.(int64); ok {
		return strconv.FormatInt(i, 10)
	}
	return id.(string)
}

type jsonDoc struct {
	r   ecore.EResource
	ids bool
	in  []any // the objects that are shown around
}

func jsonOpts(ids bool) map[string]any {
	if ids {
		return map[string]any{ecore.JSON_OPTION_ID_ATTRIBUTE_NAME: "_id"}
	}
	return nil
}

func jsonEncode(r ecore.EResource, ids bool) (s string, panicked bool) {
	var b bytes.Buffer
	panicked = try(func() { ecore.NewJSONEncoder(r, &b, jsonOpts(ids)).EncodeResource() })
	return b.String(), panicked
}

func jsonClass(o ecore.EObject) string {
	return o.EClass().GetEPackage().GetNsURI() + "#//" + o.EClass().GetName()
}

// object: v shows o and its contents.
func (d *jsonDoc) object(v *jv, o ecore.EObject) {
	nd.Check(v.kind == 'o', "an object is a JSON object")
	if indexOf(d.in, o) >= 0 {
		d.reference(v, o)
		return
	}
	d.in = append(d.in, o)
	defer func() { d.in = d.in[:len(d.in)-1] }()
	n := 1
	c := v.get("eClass")
	nd.Check(c != nil && c.s == jsonClass(o), "an object is written with its class")
	if d.ids {
		if id := d.r.GetObjectIDManager().GetID(o); id != nil {
			x := v.get("_id")
			nd.Check(x != nil && x.kind == 's' && x.s == idText(id), "an object is written with its id")
			n++
		}
	}
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		x := v.get(f.GetName())
		r, _ := f.(ecore.EReference)
		if f.IsTransient() || !o.EIsSet(f) || r != nil && r.IsContainer() {
			nd.Check(x == nil, "only the features that are set are written: "+f.GetName())
			continue
		}
		n++
		nd.Check(x != nil, "the features that are set are written: "+f.GetName())
		vals, js := []any{}, []*jv{x}
		if f.IsMany() {
			nd.Check(x.kind == 'a', "the values of a list are an array")
			vals, js = viewS(o.EGetResolve(f, false).(ecore.EList)), x.vals
		} else {
			vals = []any{o.EGetResolve(f, false)}
		}
		nd.Check(len(vals) == len(js), "the values of a feature are written")
		for i, y := range vals {
			switch {
			case r == nil:
				t := f.GetEType().(ecore.EDataType)
				s := t.GetEPackage().GetEFactoryInstance().ConvertToString(t, y)
				nd.Check(js[i].kind == 's' && js[i].s == utf8Text(s), "a value is written as its text")
			case r.IsContainment(), !r.IsResolveProxies(): // (such references are written as objects)
				d.object(js[i], y.(ecore.EObject))
			default:
				d.reference(js[i], y.(ecore.EObject))
			}
		}
	}
	nd.Check(len(v.keys) == n, "only the features that are set are written")
}

func (d *jsonDoc) reference(v *jv, o ecore.EObject) {
	nd.Check(v.kind == 'o' && len(v.keys) == 2 && v.get("eClass") != nil && v.get("eRef") != nil, "a reference is an object with a class and a location")
	nd.Check(v.get("eClass").s == jsonClass(o), "a reference is written with the class of its object")
	s := v.get("eRef").s
	if o.EIsProxy() {
		u := d.r.GetURI().Resolve(ecore.NewURI(s))
		nd.Check(u.Equals(o.(ecore.EObjectInternal).EProxyURI()), "a reference to a proxy is written with its location")
	} else if o.EResource() == nil {
		nd.Check(s == "", "a reference to an object of no resource has no location")
	} else {
		u := d.r.GetURI().Resolve(ecore.NewURI(s))
		nd.Check(d.r.GetResourceSet().GetEObject(u, false) == o, "a reference leads to the object it was written for")
	}
}

// check: the document of a resource shows its first root.
func (d *jsonDoc) check() {
	s, panicked := jsonEncode(d.r, d.ids)
	nd.Check(!panicked, "writing a model does not panic")
	nd.Log(s)
	if d.r.GetContents().Empty() {
		nd.Check(s == "", "an empty resource has no object")
		return
	}
	v := parseJSON(s)
	nd.Check(v != nil, "a document is JSON")
	d.object(v, d.r.GetContents().Get(0).(ecore.EObject))
	nd.Check(d.r.GetErrors().Empty(), "a resource is written without error")
}

// checkObject: an object is written alone as it is in its resource.
func (d *jsonDoc) checkObject(o ecore.EObject) {
	var b bytes.Buffer
	nd.Check(ecore.NewJSONEncoder(d.r, &b, jsonOpts(d.ids)).EncodeObject(o) == nil, "an object is written without error")
	v := parseJSON(b.String())
	nd.Check(v != nil, "a document is JSON")
	d.object(v, o)
}

func Setup_JSONText() { buildXM() }
func Setup_JSONTree() { buildXM() }
func Setup_JSONRefs() { buildXM() }

// H_JSONText: texts in a document are those of the model.
func H_JSONText() {
	r := newResource(xm.set(), "m:/a.x")
	o := xm.new(0)
	r.GetContents().Add(o)
	s := nd.Str("s", intn("len", nd.Param("len")+1), "")
	ids := false
	switch intn("where", 4-2*(len(s)/2)) { // a long text is in an attribute or in a list
	case 0:
		o.ESet(mm.ft(fName), s)
	case 1:
		mm.list(o, fTags).AddAll(ecore.NewBasicEList([]any{"b", s, "", "\u2028"}))
	case 2:
		ids = true
		m := &oneID{id: s}
		r.SetObjectIDManager(m)
		nd.Assume(utf8.ValidString(s))
	default:
		xm.packs[0].SetNsURI("http://" + s)
		nd.Assume(utf8.ValidString(s))
	}
	(&jsonDoc{r: r, ids: ids}).check()
}

// oneID gives every object the same id.
type oneID struct {
	ecore.EObjectIDManager
	id string
}

func (m *oneID) Clear()                          {}
func (m *oneID) Register(o ecore.EObject)        {}
func (m *oneID) UnRegister(o ecore.EObject)      {}
func (m *oneID) GetID(o ecore.EObject) any       { return m.id }
func (m *oneID) GetEObject(id any) ecore.EObject { return nil }

// H_JSONTree: a tree of objects of several packages.
func H_JSONTree() {
	rs := xm.set()
	r := newResource(rs, "m:/a.x")
	var objs []ecore.EObject
	n := intn("n", nd.Param("n")+2)
	for i := 0; i < n; i++ {
		o := xm.new(intn("class", 3))
		objs = append(objs, o)
		if i == 0 {
			r.GetContents().Add(o)
		} else {
			putIn(objs[intn("parent", i)], o, xm.conts[intn("cont", len(xm.conts))])
		}
	}
	ids := nd.Bool("ids")
	if n > 0 {
		o := objs[intn("o", n)]
		switch intn("attrs", 3) {
		case 1:
			o.ESet(mm.ft(fID), "i")
			o.ESet(mm.ft(fCount), -7)
			o.ESet(mm.ft(fName), "")
		case 2:
			o.ESet(mm.ft(fCount), 0)
			mm.list(o, fTags).AddAll(ecore.NewImmutableEList([]any{"t", "t"}))
			mm.list(o, fUTags).Add("u")
		}
	}
	if ids {
		m := ecore.NewIncrementalIDManager()
		for i, o := range objs {
			if i != 1 {
				m.SetID(o, int64(i+8))
			}
		}
		r.SetObjectIDManager(m)
	}
	(&jsonDoc{r: r, ids: ids}).check()
}

// H_JSONRefs: references between the objects of two documents, to proxies and to objects of no resource.
func H_JSONRefs() {
	rs := xm.set()
	ra := newResource(rs, "m:/d/a.x")
	rb := newResource(rs, []string{"m:/d/b.x", "m:/b.x", "s:b.x", "m:///d/b.x"}[intn("uri", nd.Param("uris"))])
	var objs []ecore.EObject
	for i := 0; i < 6; i++ {
		objs = append(objs, xm.new(i%2))
	}
	mm.list(objs[0], fKids).Add(objs[1])
	ra.GetContents().Add(objs[0])
	objs[2].ESet(mm.ft(fChild), objs[3])
	rb.GetContents().Add(objs[2])
	objs[4].(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("m:/d/c.x#//@kids.0"))
	if nd.Bool("resolve") {
		for _, i := range xRefs {
			mm.ft(i).(ecore.EReference).SetResolveProxies(false)
		}
	}
	fs := xRefs
	f := fs[intn("f", len(fs))]
	for i, n := 0, nd.Param("refs"); i < n; i++ {
		xm.refer(objs[intn("a", 2)], f, objs[intn("b", 6)])
	}
	(&jsonDoc{r: ra}).check()
	(&jsonDoc{r: rb}).check()
	(&jsonDoc{r: ra}).checkObject(objs[1])
}
