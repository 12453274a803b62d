package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// storeEntry is an entry of a map in a store, as generated code has them.
type storeEntry struct {
	ecore.EStoreEObjectImpl
}

func newStoreEntry(c ecore.EClass) *storeEntry {
	e := &storeEntry{}
	e.SetInterfaces(e)
	e.Initialize()
	e.SetEClass(c)
	return e
}

func (e *storeEntry) ft(i int) ecore.EStructuralFeature { return e.EClass().GetEStructuralFeature(i) }
func (e *storeEntry) GetKey() any                       { return e.EGet(e.ft(0)) }
func (e *storeEntry) SetKey(k any)                      { e.ESet(e.ft(0), k) }
func (e *storeEntry) GetValue() any                     { return e.EGet(e.ft(1)) }
func (e *storeEntry) SetValue(v any)                    { e.ESet(e.ft(1), v) }

// storeFactory makes the entries of a map.
type storeFactory struct {
	ecore.EFactoryExt
}

func (f *storeFactory) Create(c ecore.EClass) ecore.EObject { return newStoreEntry(c) }

const (
	swChild = iota
	swKids
	swParent
	swMap
	swName
	swCount
	swTags
	swTmp
	swTmps
)

var sw struct {
	c     ecore.EClass
	entry ecore.EClass
	f     []ecore.EStructuralFeature
}

func setupSwitch() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("sw")
	p.SetNsURI("http://sw")
	sw.entry = f.CreateEClass()
	sw.entry.SetName("Entry")
	sw.entry.SetInstanceTypeName("java.util.Map$Entry")
	str := ecore.GetPackage().GetEString()
	for _, n := range []string{"key", "value"} {
		a := f.CreateEAttribute()
		a.SetName(n)
		a.SetEType(str)
		sw.entry.GetEStructuralFeatures().Add(a)
	}
	sw.c = f.CreateEClass()
	sw.c.SetName("S")
	sw.f = nil
	attr := func(n string, t ecore.EDataType, lit string, many, transient bool) {
		a := f.CreateEAttribute()
		a.SetName(n)
		a.SetEType(t)
		if many {
			a.SetUpperBound(-1)
			a.SetUnique(false)
		}
		if lit != "" {
			a.SetDefaultValueLiteral(lit)
		}
		a.SetTransient(transient)
		sw.f = append(sw.f, a)
		sw.c.GetEStructuralFeatures().Add(a)
	}
	ref := func(n string, t ecore.EClass, many, cont bool) ecore.EReference {
		r := f.CreateEReference()
		r.SetName(n)
		r.SetEType(t)
		if many {
			r.SetUpperBound(-1)
		}
		r.SetContainment(cont)
		r.SetResolveProxies(false)
		sw.f = append(sw.f, r)
		sw.c.GetEStructuralFeatures().Add(r)
		return r
	}
	ref("child", sw.c, false, true)
	k := ref("kids", sw.c, true, true)
	q := ref("parent", sw.c, false, false)
	k.SetEOpposite(q)
	q.SetEOpposite(k)
	ref("map", sw.entry, true, true)
	attr("name", str, "", false, false)
	attr("count", ecore.GetPackage().GetEInt(), "3", false, false)
	attr("tags", str, "", true, false)
	attr("tmp", str, "", false, true)
	attr("tmps", str, "", true, true)
	p.GetEClassifiers().AddAll(ecore.NewImmutableEList([]any{sw.entry, sw.c}))
	fac := &storeFactory{}
	fac.SetInterfaces(fac)
	fac.Initialize()
	p.SetEFactoryInstance(fac)
}

func init() {
	All["H_StoreSwitch"] = entry{Setup_StoreSwitch, H_StoreSwitch}
	All["H_StoreMap"] = entry{Setup_StoreMap, H_StoreMap}
}

func Setup_StoreSwitch() { setupSwitch() }
func Setup_StoreMap()    { setupSwitch() }

// swObj is an object with the values that it has to have.
type swObj struct {
	o          *ecore.EStoreEObjectImpl
	name, tmp  any
	count      any
	countSet   bool
	tags, tmps []any
	child      *swObj
	kids       []any
	parent     *swObj
	parentF    int
	// the default value that the store gave is kept out of it as a value
	nameRead, countRead bool
	keys, vals          []any
}

func (x *swObj) view(f int) ecore.EList { return x.o.EGet(sw.f[f]).(ecore.EList) }

func (x *swObj) check() {
	o := x.o
	nd.Check(x.name == nil && o.EGet(sw.f[swName]) == any("") || o.EGet(sw.f[swName]) == x.name, "a single value")
	nd.Check(o.EGet(sw.f[swCount]) == x.count, "a single value with a default")
	if x.name != nil || !x.nameRead {
		nd.Check(o.EIsSet(sw.f[swName]) == (x.name != nil), "a single value is set")
	}
	if x.countSet || !x.countRead {
		nd.Check(x.countSet == o.EIsSet(sw.f[swCount]), "a single value with a default is set")
	}
	nd.Check(sameSlice(viewS(x.view(swTags)), x.tags), "a list of values")
	nd.Check(o.EIsSet(sw.f[swTags]) == (len(x.tags) > 0), "a list of values is set")
	nd.Check(x.tmp == nil && o.EGet(sw.f[swTmp]) == any("") || o.EGet(sw.f[swTmp]) == x.tmp, "a transient value")
	nd.Check(sameSlice(viewS(x.view(swTmps)), x.tmps), "a list of transient values")
	nd.Check(o.EIsSet(sw.f[swTmp]) == (x.tmp != nil), "a transient value is set")
	nd.Check(o.EIsSet(sw.f[swTmps]) == (len(x.tmps) > 0), "a list of transient values is set")
	if x.child == nil {
		nd.Check(o.EGet(sw.f[swChild]) == nil, "no single content")
	} else {
		nd.Check(o.EGet(sw.f[swChild]) == any(x.child.o), "a single content")
	}
	nd.Check(sameSlice(viewS(x.view(swKids)), x.kids), "contents")
	if x.parent == nil {
		nd.Check(o.EContainer() == nil, "no container")
		nd.Check(o.EGet(sw.f[swParent]) == nil, "no parent")
	} else {
		nd.Check(o.EContainer() == ecore.EObject(x.parent.o), "a container")
		nd.Check(o.EContainingFeature() == sw.f[x.parentF], "a containing feature")
		nd.Check((o.EGet(sw.f[swParent]) != nil) == (x.parentF == swKids), "a parent")
	}
	m := x.o.EGet(sw.f[swMap]).(ecore.EMap)
	nd.Check(m.Size() == len(x.keys), "a map has its entries")
	i := 0
	for e := range m.All() {
		nd.Check(e.(ecore.EMapEntry).GetKey() == x.keys[i] && e.(ecore.EMapEntry).GetValue() == x.vals[i], "an entry of a map")
		nd.Check(e.(ecore.EObject).EContainer() == ecore.EObject(o), "an entry of a map is contained")
		i++
	}
	for i, k := range x.keys {
		nd.Check(m.ContainsKey(k) && m.GetValue(k) == x.vals[i], "the value of a key")
	}
	nd.Check(!m.ContainsKey("zz"), "no other key")
}

// same tells if the lists and the container are those that they have to be.
func (x *swObj) same() bool {
	c := x.o.EContainer()
	if x.parent == nil && c != nil || x.parent != nil && c != ecore.EObject(x.parent.o) {
		return false
	}
	return x.view(swTags).Size() == len(x.tags) && x.view(swKids).Size() == len(x.kids) && x.o.EGet(sw.f[swMap]).(ecore.EMap).Size() == len(x.keys)
}

func (x *swObj) checkStore(s *memStore) {
	m := s.objs[x.o]
	if m == nil {
		return
	}
	nd.Check(m.values[sw.f[swName]] == x.name || x.name == nil && m.values[sw.f[swName]] == any(""), "the store has the value")
	c := m.values[sw.f[swCount]]
	nd.Check(c == x.count || c == nil && !x.countSet, "the store has the value that has a default")
	nd.Check(sameSlice(m.lists[sw.f[swTags]], x.tags), "the store has the list of values")
	nd.Check(sameSlice(m.lists[sw.f[swKids]], x.kids), "the store has the contents")
	if x.child == nil {
		nd.Check(m.values[sw.f[swChild]] == nil, "the store has no content")
	} else {
		nd.Check(m.values[sw.f[swChild]] == any(x.child.o), "the store has the content")
	}
	_, has := m.values[sw.f[swTmp]]
	nd.Check(!has && len(m.lists[sw.f[swTmps]]) == 0, "the store has no transient value")
	l := m.lists[sw.f[swMap]]
	nd.Check(len(l) == len(x.keys), "the store has the entries of the map")
	for i, e := range l {
		n := s.objs[e.(ecore.EObject)]
		nd.Check(n != nil && n.values[sw.entry.GetEStructuralFeature(0)] == x.keys[i] && n.values[sw.entry.GetEStructuralFeature(1)] == x.vals[i], "the store has the key and value of an entry")
	}
	if x.parent == nil {
		nd.Check(m.container == nil, "the store has no container")
	} else {
		nd.Check(m.container == ecore.EObject(x.parent.o) && m.feature == sw.f[x.parentF], "the store has the container")
	}
}

func newSwObj(cache bool) *swObj {
	o := ecore.NewEStoreEObjectImpl(cache)
	o.SetEClass(sw.c)
	return &swObj{o: o, count: 3}
}

// load puts a content in the store without looking at the object.
func (x *swObj) load(s *memStore, y *swObj, at int) {
	m := &memObj{values: map[ecore.EStructuralFeature]any{}, lists: map[ecore.EStructuralFeature][]any{}}
	s.objs[x.o] = m
	m.values[sw.f[swName]] = "n"
	x.name = "n"
	m.values[sw.f[swCount]] = 3
	m.lists[sw.f[swTags]] = []any{"t"}
	x.tags = []any{"t"}
	e := newStoreEntry(sw.entry)
	em := &memObj{container: x.o, feature: sw.f[swMap], values: map[ecore.EStructuralFeature]any{sw.entry.GetEStructuralFeature(0): "k", sw.entry.GetEStructuralFeature(1): "v"}}
	s.objs[e] = em
	e.SetEStore(s)
	m.lists[sw.f[swMap]] = []any{e}
	x.keys, x.vals = []any{"k"}, []any{"v"}
	n := &memObj{container: x.o, feature: sw.f[at], values: map[ecore.EStructuralFeature]any{}, lists: map[ecore.EStructuralFeature][]any{}}
	s.objs[y.o] = n
	if at == swChild {
		m.values[sw.f[at]] = y.o
	} else {
		m.lists[sw.f[at]] = []any{y.o}
	}
	x.put(y, at)
	x.o.SetEStore(s)
	y.o.SetEStore(s)
}

// put records that x holds y.
func (x *swObj) put(y *swObj, at int) {
	y.out()
	if at == swChild {
		if x.child != nil {
			x.child.parent = nil
		}
		x.child = y
	} else {
		x.kids = append(x.kids, y.o)
	}
	y.parent, y.parentF = x, at
}

func (y *swObj) out() {
	if x := y.parent; x != nil {
		if y.parentF == swChild {
			x.child = nil
		} else {
			x.kids = removeS(x.kids, indexOf(x.kids, y.o))
		}
		y.parent = nil
	}
}

// step makes one change.
func (x *swObj) step(s *memStore, y *swObj, op int) {
	o := x.o
	switch op {
	case 0:
		v := []string{"p", "n"}[intn("v", 2)]
		o.ESet(sw.f[swName], v)
		x.name = v
	case 1:
		o.EUnset(sw.f[swName])
		x.name, x.nameRead = nil, false
	case 2:
		o.ESet(sw.f[swCount], 4)
		x.count, x.countSet = 4, true
	case 3:
		o.EUnset(sw.f[swCount])
		x.count, x.countSet, x.countRead = 3, false, false
	case 4:
		x.view(swTags).Add("u")
		x.tags = append(cloneS(x.tags), "u")
	case 5:
		x.view(swTags).Clear()
		x.tags = nil
	case 6:
		o.ESet(sw.f[swTmp], "w")
		x.tmp = "w"
	case 7:
		x.view(swTmps).Add("w")
		x.tmps = append(cloneS(x.tmps), "w")
	case 8:
		nd.Assume(x.child != y)
		o.ESet(sw.f[swChild], y.o)
		x.put(y, swChild)
	case 9:
		nd.Assume(y.parent != x || y.parentF != swKids)
		x.view(swKids).Add(y.o)
		x.put(y, swKids)
	case 10:
		m := o.EGet(sw.f[swMap]).(ecore.EMap)
		m.Put("a", "b")
		if i := indexOf(x.keys, "a"); i >= 0 {
			x.vals[i] = "b"
		} else {
			x.keys, x.vals = append(cloneS(x.keys), "a"), append(cloneS(x.vals), "b")
		}
	case 11:
		nd.Assume(len(x.keys) > 0)
		m := o.EGet(sw.f[swMap]).(ecore.EMap)
		nd.Check(m.RemoveKey(x.keys[0]) == x.vals[0], "removing a key returns its value")
		x.keys, x.vals = removeS(x.keys, 0), removeS(x.vals, 0)
	case 12:
		x.check()
	case 13:
		if intn("both", 2) == 1 {
			y.o.SetCache(!y.o.IsCache())
		}
		o.SetCache(!o.IsCache())
	case 14: // into the store
		nd.Assume(s.objs[o] == nil)
		s.AddRoot(o)
	case 15: // out of the store
		nd.Assume(s.objs[o] != nil)
		read := intn("read", 2) == 1
		if read {
			x.check()
		}
		o.SetEStore(nil)
		delete(s.objs, o)
		x.nameRead, x.countRead = x.name == nil, !x.countSet
		if !read && !x.same() {
			nd.KnownCheck(false, "store-detach-unread", "an object out of its store keeps what was not read")
			nd.Assume(false)
		}
	}
}

// H_StoreSwitch: an object and another one that it may hold, in a store from
// the start or later, cached or not, change.
func H_StoreSwitch() {
	cache := intn("cache", 2) == 1
	s := newMemStore()
	x, y := newSwObj(cache), newSwObj(cache)
	switch intn("start", 3) {
	case 0: // in no store
	case 1: // loaded from the store
		x.load(s, y, []int{swChild, swKids}[intn("at", 2)])
	case 2: // new in the store
		s.AddRoot(x.o)
	}
	n := nd.Param("steps")
	for i := 0; i < n; i++ {
		x.step(s, y, intn("op", nd.Param("ops")))
		x.checkStore(s)
		nd.Reach("step")
	}
	x.check()
	y.check()
	x.checkStore(s)
	y.checkStore(s)
	nd.Observe(x.o.EContents().Size())
}

// H_StoreMap: maps whose entries are in a store.
func H_StoreMap() {
	s := newMemStore()
	cache := intn("cache", 2) == 1
	x := newSwObj(cache)
	s.AddRoot(x.o)
	mp = &mapMM{entry: sw.entry}
	e := &emap{m: x.o.EGet(sw.f[swMap]).(ecore.EMap), owner: x.o, mk: func() ecore.EMapEntry { return newStoreEntry(sw.entry) }}
	mapCase(e)
	l := s.objs[x.o].lists[sw.f[swMap]]
	nd.Check(sameSlice(l, e.ref), "the store has the entries of the map")
	x.o.SetCache(!cache)
	e.m = x.o.EGet(sw.f[swMap]).(ecore.EMap)
	e.check()
}
