package h

import (
	"errors"
	"io"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_URIMap"] = entry{nil, H_URIMap}
	All["H_ResourceSet"] = entry{Setup_ResourceSet, H_ResourceSet}
	All["H_ResourceFirst"] = entry{Setup_ResourceFirst, H_ResourceFirst}
	All["H_ResourceLoad"] = entry{Setup_ResourceLoad, H_ResourceLoad}
	All["H_ResourceSets"] = entry{Setup_ResourceSets, H_ResourceSets}
	All["H_Codec"] = entry{nil, H_Codec}
	All["H_Packages"] = entry{nil, H_Packages}
}

// uriParts are the components of a URI of the harness.
type uriParts struct{ scheme, host, path, query, frag string }

func (p uriParts) uri() *ecore.URI {
	return ecore.NewURIBuilder(nil).SetScheme(p.scheme).SetHost(p.host).SetPath(p.path).SetQuery(p.query).SetFragment(p.frag).URI()
}

func (p uriParts) prefixOf(u uriParts) bool {
	return p.scheme == u.scheme && p.host == u.host && len(p.path) <= len(u.path) && u.path[:len(p.path)] == p.path
}

func someURI(name string, max int) uriParts {
	p := uriParts{}
	switch intn(name+".scheme", nd.Param("auth")) {
	case 1:
		p.scheme = "s"
	case 2:
		p.scheme, p.host = "s", "h"
	case 3:
		p.scheme, p.host = "s", "k"
	}
	n := intn(name+".len", max+1)
	if n > 0 {
		p.path = nd.Str(name+".path", n, "/a")
		if n > 1 {
			nd.Assume(p.path[0] != '/' || p.path[1] != '/')
		}
		nd.Assume(p.host == "" || p.path[0] == '/')
	}
	return p
}

// H_URIMap: the converter replaces the longest known prefix, as often as there is one.
func H_URIMap() {
	c := ecore.NewEURIConverterImpl()
	n := intn("n", nd.Param("maps")+1)
	var from, to []uriParts
	for i := 0; i < n; i++ {
		f, t := someURI("from", nd.Param("plen")), someURI("to", nd.Param("plen"))
		for _, x := range from {
			nd.Assume(x != f)
		}
		from, to = append(from, f), append(to, t)
		c.GetURIMap()[*f.uri()] = *t.uri()
	}
	u := someURI("uri", nd.Param("ulen"))
	if intn("rest", nd.Param("rest")) == 0 {
		u.query, u.frag = "q", "f"
	}
	in := u.uri()
	before := in.String()
	done := false
	for step := 0; step <= n; step++ {
		best := -1
		for i := range from {
			if from[i].prefixOf(u) && (best < 0 || len(from[i].path) > len(from[best].path)) {
				best = i
			}
		}
		if best < 0 {
			done = true
			break
		}
		v := u
		v.scheme, v.host, v.path = to[best].scheme, to[best].host, to[best].path+u.path[len(from[best].path):]
		// a URI is made of its components
		nd.Assume(v.host == "" || v.path == "" || v.path[0] == '/')
		nd.Assume(len(v.path) < 2 || v.path[0] != '/' || v.path[1] != '/')
		if v == u {
			done = true
			break
		}
		u = v
	}
	nd.Assume(done) // no cycle
	out := c.Normalize(in)
	nd.Check(out != nil && out.Scheme() == u.scheme && out.Host() == u.host && out.Path() == u.path && out.Query() == u.query && out.Fragment() == u.frag, "a URI is normalized by replacing its longest mapped prefix")
	nd.Check(c.Normalize(out).Equals(out), "a normalized URI is normalized")
	nd.Check(in.String() == before, "normalizing a URI leaves it as it is")
	nd.Observe(out.String())
}

type nopFile struct {
	uri    string
	closed *int
}

func (nopFile) Read(p []byte) (int, error)  { return 0, io.EOF }
func (nopFile) Write(p []byte) (int, error) { return len(p), nil }
func (f nopFile) Close() error              { *f.closed++; return nil }

var rsOpen, rsClosed int

// storeHandler is the handler of the scheme "m".
type storeHandler struct{}

func (storeHandler) CanHandle(u *ecore.URI) bool { return u.Scheme() == "m" }
func (storeHandler) CreateReader(u *ecore.URI) (io.ReadCloser, error) {
	if u.Path() == "/none.x" {
		return nil, errors.New("none")
	}
	rsOpen++
	return nopFile{u.String(), &rsClosed}, nil
}
func (storeHandler) CreateWriter(u *ecore.URI) (io.WriteCloser, error) {
	if u.Path() == "/none.x" {
		return nil, errors.New("none")
	}
	rsOpen++
	return nopFile{u.String(), &rsClosed}, nil
}

type storeConverter struct{ *ecore.EURIConverterImpl }

func newStoreConverter() *storeConverter { return &storeConverter{ecore.NewEURIConverterImpl()} }

func (c *storeConverter) GetURIHandler(u *ecore.URI) ecore.EURIHandler {
	if (storeHandler{}).CanHandle(u) {
		return storeHandler{}
	}
	return nil
}
func (c *storeConverter) CreateReader(u *ecore.URI) (io.ReadCloser, error) {
	n := c.Normalize(u)
	if h := c.GetURIHandler(n); h != nil {
		return h.CreateReader(n)
	}
	return nil, errors.New("no handler")
}
func (c *storeConverter) CreateWriter(u *ecore.URI) (io.WriteCloser, error) {
	n := c.Normalize(u)
	if h := c.GetURIHandler(n); h != nil {
		return h.CreateWriter(n)
	}
	return nil, errors.New("no handler")
}

// rsCodec: decoding adds a fixed number of roots named after the resource, counts the decodings.
type rsCodec struct {
	decodes map[ecore.EResource]int
	encodes map[ecore.EResource]int
	roots   int
	fails   bool
}

func (c *rsCodec) NewEncoder(r ecore.EResource, w io.Writer, o map[string]any) ecore.EEncoder {
	return &rsCoder{c, r}
}
func (c *rsCodec) NewDecoder(r ecore.EResource, rd io.Reader, o map[string]any) ecore.EDecoder {
	return &rsCoder{c, r}
}

type rsCoder struct {
	c *rsCodec
	r ecore.EResource
}

func (d *rsCoder) EncodeResource()                      { d.c.encodes[d.r]++ }
func (d *rsCoder) EncodeObject(ecore.EObject) error     { return nil }
func (d *rsCoder) DecodeObject() (ecore.EObject, error) { return nil, nil }
func (d *rsCoder) DecodeResource() {
	d.c.decodes[d.r]++
	nd.Check(d.r.IsLoading(), "a resource being decoded is loading")
	if d.c.fails {
		d.r.GetErrors().Add(ecore.NewEDiagnosticImpl("failed", "", 0, 0))
		return
	}
	for i := 0; i < d.c.roots; i++ {
		o := mm.new()
		o.ESet(mm.ft(fID), "id"+string([]byte{byte('0' + i)}))
		d.r.GetContents().Add(o)
	}
}

func newStoreSet(roots int, fails bool) (*ecore.EResourceSetImpl, *rsCodec) {
	c := &rsCodec{map[ecore.EResource]int{}, map[ecore.EResource]int{}, roots, fails}
	rs := ecore.NewEResourceSetImpl()
	rs.SetURIConverter(newStoreConverter())
	reg := ecore.NewECodecRegistryImpl()
	reg.GetExtensionToCodecMap()["x"] = c
	rs.SetCodecRegistry(reg)
	return rs, c
}

func Setup_ResourceSet()  { mm = buildMM(false, false) }
func Setup_ResourceLoad() { mm = buildMM(false, false) }
func Setup_ResourceSets() { mm = buildMM(false, false) }

// the URIs of H_ResourceSet; the map sends l:... to m:...
var rsURIs = []string{"m:/a.x", "m:///b.x", "l:/a.x", "m:/none.x", "m:/a.y", "n:/a.x", "http://lib"}

func rsURI(i int) *ecore.URI { return ecore.NewURI(rsURIs[i]) }

// rsNorm is the text of the normalized URI i
func rsNorm(i int) string {
	if i == 2 {
		return rsURIs[0]
	}
	return rsURIs[i]
}

// H_ResourceSet: finding resources by URI.
func H_ResourceSet() {
	roots := intn("roots", nd.Param("roots")+1)
	rs, c := newStoreSet(roots, false)
	rs.GetURIConverter().GetURIMap()[*ecore.NewURI("l:")] = *ecore.NewURI("m:")
	if nd.Bool("cache") {
		rs.SetURIResourceMap(map[*ecore.URI]ecore.EResource{})
	}
	rsOpen, rsClosed = 0, 0
	var list []ecore.EResource
	var uris []int // -1: none
	loaded := map[ecore.EResource]bool{}
	decodes := map[ecore.EResource]int{}
	// some resources
	for i, n := 0, intn("n", nd.Param("n")+1); i < n; i++ {
		u := intn("u", 4) - 1
		var r ecore.EResource
		if u < 0 {
			r = ecore.NewEResourceImpl()
			rs.GetResources().Add(r)
		} else {
			r = rs.CreateResource(rsURI(u))
		}
		list, uris = append(list, r), append(uris, u)
	}
	steps := nd.Param("steps")
	for s := 0; s < steps; s++ {
		u := intn("u", len(rsURIs)-1)
		uri := rsURI(u)
		demand := nd.Bool("demand")
		var want ecore.EResource
		for i, r := range list {
			if uris[i] >= 0 && rsNorm(uris[i]) == rsNorm(u) {
				want = r
				break
			}
		}
		viaObject := intn("via", 3)
		var r ecore.EResource
		var o ecore.EObject
		if viaObject > 0 {
			frag := "id0"
			if viaObject == 2 {
				frag = "/"
				if roots > 1 {
					frag = "/1"
				}
			}
			o = rs.GetEObject(ecore.NewURI(rsURIs[u]+"#"+frag), demand)
		}
		if viaObject == 0 {
			r = rs.GetResource(uri, demand)
		} else {
			r = rs.GetResource(uri, false)
		}
		if want == nil && demand {
			nd.Check(r != nil, "a resource that is not known is created on demand")
			for _, x := range list {
				nd.Check(r != x, "a resource created on demand is a new one")
			}
			list, uris = append(list, r), append(uris, u)
			nd.Check(r.GetURI().Equals(uri), "a resource created on demand has the URI asked for")
			want = r
		} else {
			nd.Check(r == want, "the resource of a URI is the first whose URI is normalized to the same URI")
		}
		if want != nil && demand && !loaded[want] {
			// its own URI says whether it can be loaded
			switch i := indexRes(list, want); uris[i] {
			case 0, 1, 2:
				loaded[want] = true
				decodes[want]++
			default:
				nd.Check(!want.GetErrors().Empty(), "a resource that cannot be loaded has an error")
			}
		}
		if viaObject > 0 {
			if want != nil && loaded[want] && roots > 0 {
				i := 0
				if viaObject == 2 && roots > 1 {
					i = 1
				}
				nd.Check(o != nil && o == want.GetContents().Get(i), "an object is found by the URI of its resource and its fragment")
			} else {
				nd.Check(o == nil, "an object of a resource that is not loaded is not found")
			}
		}
		// the state
		nd.Check(sameSlice(viewS(rs.GetResources()), anyRes(list)), "the resources of the set are those created")
		for _, x := range list {
			nd.Check(x.GetResourceSet() == ecore.EResourceSet(rs), "a resource of a set knows the set")
			nd.Check(x.IsLoaded() == loaded[x], "a resource is loaded once demanded, if it can be")
			nd.Check(!x.IsLoading(), "a resource that was loaded is not loading")
			nd.Check(c.decodes[x] == decodes[x], "a resource is decoded once")
			if loaded[x] {
				nd.Check(x.GetContents().Size() == roots, "a loaded resource has the contents of its source")
				nd.Check(x.GetErrors().Empty(), "a resource that was loaded has no error")
			}
		}
		nd.Check(rsOpen == rsClosed, "what is opened to load a resource is closed")
		nd.Observe(u, len(list))
	}
}

func Setup_ResourceFirst() { mm = buildMM(false, false) }

// H_ResourceFirst: H_ResourceSet with more resources and one lookup.
func H_ResourceFirst() { H_ResourceSet() }

func indexRes(l []ecore.EResource, r ecore.EResource) int {
	for i, x := range l {
		if x == r {
			return i
		}
	}
	return -1
}

func anyRes(l []ecore.EResource) []any {
	r := []any{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

// H_ResourceLoad: loading, unloading and saving one resource.
func H_ResourceLoad() {
	roots := intn("roots", 3)
	fails := nd.Bool("fails")
	rs, c := newStoreSet(roots, fails)
	u := intn("u", len(rsURIs)-1)
	rsOpen, rsClosed = 0, 0
	r := rs.CreateResource(rsURI(u))
	rec := &loadRec{}
	r.EAdapters().Add(rec)
	loads := u <= 1
	reaches := u <= 1 || u == 4 // the source can be opened
	loaded, n, decodes, encodes, flips, failed := false, 0, 0, 0, 0, false
	for s, steps := 0, nd.Param("steps"); s < steps; s++ {
		was := loaded
		switch intn("op", 5) {
		case 0:
			r.Load()
			if !loaded {
				if loads {
					loaded, n, failed = true, n, fails
					decodes++
					if !fails {
						n += roots
					}
				} else {
					failed = true
				}
			}
		case 1:
			r.Unload()
			if loaded {
				loaded, n, failed = false, 0, false
			}
		case 2:
			r.Save()
			if loads {
				encodes++
				failed = false
			} else {
				failed = true
			}
		case 3:
			r.GetContents().Add(mm.new())
			loaded = true
			n++
		default:
			nd.Assume(n > 0)
			r.GetContents().RemoveAt(intn("i", n))
			n--
			loaded = n > 0
		}
		if was != loaded {
			flips++
		}
		_ = reaches
		nd.Check(r.IsLoaded() == loaded, "a resource is loaded from its loading, or its first object, to its unloading, or its last object")
		nd.Check(!r.IsLoading(), "a resource that was loaded is not loading")
		nd.Check(r.GetContents().Size() == n, "the contents of a resource are those loaded and added")
		nd.Check(!r.GetErrors().Empty() == failed, "a resource shows the errors of what was last done")
		nd.Check(c.decodes[r] == decodes, "a resource that is loaded is not loaded again")
		nd.Check(c.encodes[r] == encodes, "a resource is encoded each time it is saved")
		nd.Check(rsOpen == rsClosed, "what is opened for a resource is closed")
		nd.Check(rec.flips == flips, "each change of the loading state is notified once")
		nd.Check(rec.last == loaded || flips == 0, "the loading state is notified")
		for i := 0; i < n; i++ {
			nd.Check(r.GetContents().Get(i).(ecore.EObject).EResource() == r, "an object of a resource knows it")
		}
	}
}

type loadRec struct {
	ecore.AbstractEAdapter
	flips int
	last  bool
}

func (a *loadRec) NotifyChanged(n ecore.ENotification) {
	if n.GetFeatureID() == ecore.RESOURCE__IS_LOADED && n.GetEventType() == ecore.SET {
		a.flips++
		nd.Check(n.GetOldValue() != n.GetNewValue(), "a notified change of the loading state is a change")
		a.last, _ = n.GetNewValue().(bool)
	}
}

// H_ResourceSets: a resource is in one set.
func H_ResourceSets() {
	sets := []ecore.EResourceSet{ecore.NewEResourceSetImpl(), ecore.NewEResourceSetImpl()}
	var res []ecore.EResource
	n := nd.Param("n")
	in := [][]any{nil, nil}
	recs := []*countRec{{}, {}}
	for i := range sets {
		sets[i].EAdapters().Add(recs[i])
	}
	for i := 0; i < n; i++ {
		r := ecore.NewEResourceImpl()
		res = append(res, r)
		if k := intn("set", 3); k < 2 {
			sets[k].GetResources().Add(r)
			in[k] = append(in[k], r)
		}
	}
	out := func(x any) {
		for k := range in {
			if i := indexOf(in[k], x); i >= 0 {
				in[k] = removeS(in[k], i)
			}
		}
	}
	for s, steps := 0, nd.Param("steps"); s < steps; s++ {
		k := intn("k", 2)
		l := sets[k].GetResources()
		x := res[intn("x", n)]
		size := len(in[k])
		switch intn("op", 7) {
		case 0:
			ok := l.Add(x)
			nd.Check(ok == (indexOf(in[k], x) < 0), "a resource is added once")
			if ok {
				out(x)
				in[k] = append(in[k], x)
			}
		case 1:
			i := intn("i", size+1)
			if l.Insert(i, x) {
				out(x)
				in[k] = insertS(in[k], i, x)
			}
		case 2:
			ok := l.Remove(x)
			nd.Check(ok == (indexOf(in[k], x) >= 0), "a resource of a set is removed")
			if ok {
				out(x)
			}
		case 3:
			nd.Assume(size > 0 && indexOf(in[k], x) < 0)
			i := intn("i", size)
			l.Set(i, x)
			out(x)
			in[k] = append(append(append([]any{}, in[k][:i]...), x), in[k][i+1:]...)
		case 4:
			l.Clear()
			in[k] = nil
		case 5:
			y := res[intn("y", n)]
			l.AddAll(ecore.NewImmutableEList([]any{x, y}))
			for _, z := range []any{x, y} {
				if indexOf(in[k], z) < 0 {
					out(z)
					in[k] = append(in[k], z)
				}
			}
		default:
			nd.Assume(size > 1)
			i, j := intn("i", size), intn("j", size)
			l.Move(i, j)
			in[k] = moveS(in[k], i, j)
		}
		for k := range in {
			nd.Check(sameSlice(viewS(sets[k].GetResources()), in[k]), "a set shows its resources")
			nd.Check(recs[k].size(in[k]), "a set notifies the resources it gains and loses")
		}
		for _, r := range res {
			var want ecore.EResourceSet
			for k := range in {
				if indexOf(in[k], r) >= 0 {
					want = sets[k]
				}
			}
			nd.Check(r.GetResourceSet() == want, "a resource knows the set it is in")
		}
	}
}

// countRec follows the resources of a set from its notifications.
type countRec struct {
	ecore.AbstractEAdapter
	list []any
}

func (a *countRec) size(l []any) bool { return len(a.list) == len(l) && a.same(l) }
func (a *countRec) same(l []any) bool {
	for _, x := range l {
		if indexOf(a.list, x) < 0 {
			return false
		}
	}
	return true
}
func (a *countRec) del(x any) {
	if i := indexOf(a.list, x); i >= 0 {
		a.list = removeS(a.list, i)
	}
}
func (a *countRec) NotifyChanged(n ecore.ENotification) {
	if n.GetFeatureID() != ecore.RESOURCE_SET__RESOURCES {
		return
	}
	switch n.GetEventType() {
	case ecore.ADD:
		a.list = append(a.list, n.GetNewValue())
	case ecore.ADD_MANY:
		a.list = append(a.list, n.GetNewValue().([]any)...)
	case ecore.REMOVE:
		a.del(n.GetOldValue())
	case ecore.REMOVE_MANY:
		for _, x := range n.GetOldValue().([]any) {
			a.del(x)
		}
	case ecore.SET:
		a.del(n.GetOldValue())
		a.list = append(a.list, n.GetNewValue())
	}
}

// H_Codec: the codec of a URI is that of its scheme, else of its extension, else the default one, else that of the delegate.
func H_Codec() {
	regs := []*ecore.ECodecRegistryImpl{ecore.NewECodecRegistryImpl()}
	if nd.Bool("delegate") {
		regs = append(regs, ecore.NewECodecRegistryImplWithDelegate(regs[0]))
	}
	u := uriParts{scheme: []string{"", "s", "x"}[intn("scheme", 3)]}
	u.path = nd.Str("path", intn("len", nd.Param("len")+1), "/.x")
	nd.Assume(len(u.path) < 2 || u.path[0] != '/' || u.path[1] != '/')
	uri := u.uri()
	// the extension
	ext, dot := "", false
	for i := len(u.path) - 1; i >= 0; i-- {
		if u.path[i] == '.' {
			ext, dot = u.path[i+1:], true
			break
		}
	}
	var want ecore.ECodec
	for _, r := range regs {
		p, e, d := &rsCodec{}, &rsCodec{}, &rsCodec{}
		hasP, hasE, hasD := nd.Bool("p"), nd.Bool("e"), nd.Bool("d")
		if hasP {
			r.GetProtocolToCodecMap()["s"] = p
		}
		if hasE {
			r.GetExtensionToCodecMap()["x"] = e
		}
		if hasD {
			r.GetExtensionToCodecMap()[ecore.DEFAULT_EXTENSION] = d
		}
		switch {
		case hasP && u.scheme == "s":
			want = p
		case hasE && dot && ext == "x":
			want = e
		case hasD:
			want = d
		}
	}
	nd.Check(regs[len(regs)-1].GetCodec(uri) == want, "the codec of a URI is that of its scheme, its extension, the default one or that of the delegate")
}

// H_Packages: packages by namespace.
func H_Packages() {
	base := ecore.NewEPackageRegistryImpl()
	top := ecore.NewEPackageRegistryImplWithDelegate(base)
	var packs []ecore.EPackage
	uris := []string{}
	n := nd.Param("n")
	for i := 0; i < n; i++ {
		p := ecore.GetFactory().CreateEPackage()
		u := nd.Str("ns", 1, "ab")
		p.SetNsURI(u)
		packs, uris = append(packs, p), append(uris, u)
	}
	regs := []*ecore.EPackageRegistryImpl{base, top}
	have := []map[string]ecore.EPackage{{}, {}}
	for s, steps := 0, nd.Param("steps"); s < steps; s++ {
		k, i := intn("reg", 2), intn("i", n)
		switch intn("op", 5) {
		case 0:
			regs[k].RegisterPackage(packs[i])
			have[k][uris[i]] = packs[i]
		case 1:
			regs[k].UnregisterPackage(packs[i])
			delete(have[k], uris[i])
		case 2:
			u := nd.Str("u", 1, "ab")
			regs[k].PutPackage(u, packs[i])
			have[k][u] = packs[i]
		case 3:
			u := nd.Str("u", 1, "ab")
			p := packs[i]
			regs[k].PutSupplier(u, func() ecore.EPackage { return p })
			have[k][u] = p
		default:
			u := nd.Str("u", 1, "ab")
			regs[k].Remove(u)
			delete(have[k], u)
		}
	}
	for _, u := range []string{"a", "b", "c"} {
		nd.Check(base.GetPackage(u) == have[0][u], "the package of a namespace is the last registered")
		want := have[1][u]
		if want == nil {
			want = have[0][u]
		}
		nd.Check(top.GetPackage(u) == want, "the package of a namespace is that of the registry, else that of its delegate")
		f := top.GetFactory(u)
		if want == nil {
			nd.Check(f == nil, "no factory without a package")
		} else {
			nd.Check(f == want.GetEFactoryInstance(), "the factory of a namespace is that of its package")
		}
	}
}
