package h

import (
	"iter"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// memStore is a store in memory. It works as the library's SQL store: an
// object that is written to it is encoded with its contents, then attached.
type memStore struct {
	objs  map[ecore.EObject]*memObj
	roots []ecore.EObject
}

type memObj struct {
	container ecore.EObject
	feature   ecore.EStructuralFeature
	values    map[ecore.EStructuralFeature]any
	lists     map[ecore.EStructuralFeature][]any
}

func newMemStore() *memStore { return &memStore{objs: map[ecore.EObject]*memObj{}} }

// isStored tells if the store holds the values of a feature.
func isStored(f ecore.EStructuralFeature) bool {
	if f.IsTransient() {
		return false
	}
	r, _ := f.(ecore.EReference)
	return r == nil || !r.IsContainer()
}

// reg encodes an object which is not in the store yet.
func (s *memStore) reg(o ecore.EObject) *memObj {
	if m := s.objs[o]; m != nil {
		return m
	}
	m := &memObj{values: map[ecore.EStructuralFeature]any{}, lists: map[ecore.EStructuralFeature][]any{}}
	s.objs[o] = m
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		if !isStored(f) || !o.EIsSet(f) {
			continue
		}
		v := o.(ecore.EObjectInternal).EGetResolve(f, false)
		if f.IsMany() {
			l := []any{}
			for x := range v.(ecore.EList).All() {
				l = append(l, x)
				s.value(f, x)
			}
			m.lists[f] = l
		} else {
			m.values[f] = v
			s.value(f, v)
		}
	}
	if p, _ := o.(ecore.EStoreProvider); p != nil {
		p.SetEStore(s)
	}
	return m
}

// value encodes the contents.
func (s *memStore) value(f ecore.EStructuralFeature, v any) {
	if r, _ := f.(ecore.EReference); r != nil && r.IsContainment() && v != nil {
		s.reg(v.(ecore.EObject))
	}
}

func (s *memStore) AddRoot(o ecore.EObject) {
	s.reg(o)
	s.roots = append(s.roots, o)
}

func (s *memStore) RemoveRoot(o ecore.EObject) {
	for i, x := range s.roots {
		if x == o {
			s.roots = append(s.roots[:i:i], s.roots[i+1:]...)
			return
		}
	}
}

func (s *memStore) at(o ecore.EObject, f ecore.EStructuralFeature, i int, n int) []any {
	nd.Check(isStored(f) && f.IsMany(), "the store is asked for the list of a many-valued feature that it holds")
	l := s.reg(o).lists[f]
	nd.Check(i >= 0 && i < len(l)+n, "the store is asked for a position that it has")
	return l
}

func (s *memStore) Get(o ecore.EObject, f ecore.EStructuralFeature, i int) any {
	if f.IsMany() {
		return s.at(o, f, i, 0)[i]
	}
	nd.Check(i == ecore.NO_INDEX, "no position is given for a single value")
	if m := s.objs[o]; m != nil {
		return m.values[f]
	}
	return nil
}

func (s *memStore) Set(o ecore.EObject, f ecore.EStructuralFeature, i int, v any, needResult bool) any {
	m := s.reg(o)
	var old any
	if f.IsMany() {
		l := cloneS(s.at(o, f, i, 0))
		old = l[i]
		l[i] = v
		m.lists[f] = l
	} else {
		nd.Check(i == ecore.NO_INDEX, "no position is given for a single value")
		nd.Check(isStored(f), "the store is given what it holds")
		old = m.values[f]
		m.values[f] = v
	}
	s.value(f, v)
	if !needResult {
		return nil
	}
	return old
}

func (s *memStore) IsSet(o ecore.EObject, f ecore.EStructuralFeature) bool {
	m := s.objs[o]
	if m == nil {
		return false
	}
	if f.IsMany() {
		return len(m.lists[f]) > 0
	}
	v := m.values[f]
	return v != nil && v != f.GetDefaultValue()
}

func (s *memStore) UnSet(o ecore.EObject, f ecore.EStructuralFeature) {
	m := s.reg(o)
	if f.IsMany() {
		m.lists[f] = nil
	} else {
		m.values[f] = f.GetDefaultValue()
	}
}

func (s *memStore) list(o ecore.EObject, f ecore.EStructuralFeature) []any {
	if m := s.objs[o]; m != nil {
		return m.lists[f]
	}
	return nil
}

func (s *memStore) IsEmpty(o ecore.EObject, f ecore.EStructuralFeature) bool {
	return len(s.list(o, f)) == 0
}

func (s *memStore) Size(o ecore.EObject, f ecore.EStructuralFeature) int { return len(s.list(o, f)) }

func (s *memStore) Contains(o ecore.EObject, f ecore.EStructuralFeature, v any) bool {
	return has(s.list(o, f), v)
}

func (s *memStore) IndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	return indexOf(s.list(o, f), v)
}

func (s *memStore) LastIndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	l := s.list(o, f)
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == v {
			return i
		}
	}
	return -1
}

func (s *memStore) Add(o ecore.EObject, f ecore.EStructuralFeature, i int, v any) {
	l := s.at(o, f, i, 1)
	s.objs[o].lists[f] = insertS(l, i, v)
	s.value(f, v)
}

func (s *memStore) AddAll(o ecore.EObject, f ecore.EStructuralFeature, i int, c ecore.Collection) {
	l := s.at(o, f, i, 1)
	a := seqS(c)
	s.objs[o].lists[f] = insertS(l, i, a...)
	for _, v := range a {
		s.value(f, v)
	}
}

func (s *memStore) Remove(o ecore.EObject, f ecore.EStructuralFeature, i int, needResult bool) any {
	l := s.at(o, f, i, 0)
	r := l[i]
	s.objs[o].lists[f] = removeS(l, i)
	if !needResult {
		return nil
	}
	return r
}

func (s *memStore) Move(o ecore.EObject, f ecore.EStructuralFeature, i int, j int, needResult bool) any {
	l := s.at(o, f, i, 0)
	if j < 0 || j >= len(l) {
		panic("move to a position that the store does not have")
	}
	r := l[i]
	s.objs[o].lists[f] = moveS(l, i, j)
	if !needResult {
		return nil
	}
	return r
}

func (s *memStore) Clear(o ecore.EObject, f ecore.EStructuralFeature) { s.reg(o).lists[f] = nil }

func (s *memStore) SetContainer(o ecore.EObject, c ecore.EObject, f ecore.EStructuralFeature) {
	m := s.reg(o)
	m.container, m.feature = c, f
}

func (s *memStore) GetContainer(o ecore.EObject) (ecore.EObject, ecore.EStructuralFeature) {
	if m := s.objs[o]; m != nil {
		return m.container, m.feature
	}
	return nil, nil
}

func (s *memStore) All(o ecore.EObject, f ecore.EStructuralFeature) iter.Seq[any] {
	l := s.list(o, f)
	return func(yield func(any) bool) {
		for _, x := range l {
			if !yield(x) {
				return
			}
		}
	}
}

func (s *memStore) ToArray(o ecore.EObject, f ecore.EStructuralFeature) []any {
	return cloneS(s.list(o, f))
}

// someStore makes the objects store-backed, the first ones being in the store
// from the start.
func someStore() *memStore {
	s := newMemStore()
	cache := intn("cache", 2) == 1
	in := 0
	switch intn("in", 2) {
	case 0:
		in = 100
	case 1:
		in = 1
	}
	mm.newFn = func(c ecore.EClass) ecore.EObject {
		o := ecore.NewEStoreEObjectImpl(cache)
		o.SetEClass(c)
		if in > 0 {
			in--
			s.AddRoot(o)
		}
		return o
	}
	return s
}

// check compares the store with the reference model.
func (s *memStore) check(g *gstate, objs []ecore.EObject) {
	for a, o := range objs {
		m := s.objs[o]
		if m == nil {
			nd.Check(o.(ecore.EStoreProvider).GetEStore() == nil, "an object which was not written is not in the store")
			continue
		}
		nd.Check(o.(ecore.EStoreProvider).GetEStore() == ecore.EStore(s), "an object of the store knows its store")
		for _, f := range mm.order() {
			d := mm.f[f]
			if d.attr != "" || isContainer(f) {
				continue
			}
			want := g.objsOf(objs, g.st[a][f])
			if d.many {
				nd.Check(sameSlice(m.lists[d.f], want), "the store holds the elements of "+d.name)
			} else if len(want) == 0 {
				nd.Check(m.values[d.f] == nil, "the store holds nothing in "+d.name)
			} else {
				nd.Check(m.values[d.f] == want[0], "the store holds the value of "+d.name)
			}
		}
		c, f := g.container(a)
		if c < 0 {
			nd.Check(m.container == nil, "the store knows that the object has no container")
		} else {
			nd.Check(m.container == objs[c] && m.feature == mm.f[f].f, "the store knows the container of the object")
		}
	}
}

func init() {
	All["H_StoreContain"] = entry{Setup_StoreContain, H_StoreContain}
	All["H_StoreCross"] = entry{Setup_StoreCross, H_StoreCross}
	All["H_StoreNotify"] = entry{Setup_StoreNotify, H_StoreNotify}
	All["H_StoreResource"] = entry{Setup_StoreResource, H_StoreResource}
	All["H_StoreList"] = entry{Setup_StoreList, H_StoreList}
}

func Setup_StoreContain()  { mm = buildMMFirst(fParent) }
func Setup_StoreCross()    { mm = buildMMFirst(fNext) }
func Setup_StoreNotify()   { mm = buildMM(false, false) }
func Setup_StoreResource() { mm = buildMM(false, false) }
func Setup_StoreList()     { mm = buildMM(false, false) }

// storeCase: operations on objects of a store. The cached values of the objects
// may be dropped, or kept from now on, between the operations.
func storeCase(fs []int) {
	s := someStore()
	k := nd.Param("objs")
	g := newG(k)
	objs := newObjs(k)
	look := intn("look", 2) == 1
	for i := 0; i < nd.Param("steps"); i++ {
		if look {
			g.check(objs, fs)
		}
		graphStep(g, objs, fs[intn("f", len(fs))])
		s.check(g, objs)
		nd.Reach("step")
	}
	if nd.Param("toggle") > 0 {
		switch intn("toggle", 2) {
		case 1:
			for _, o := range objs {
				p := o.(ecore.ECacheProvider)
				p.SetCache(!p.IsCache())
			}
		}
	}
	g.check(objs, fs)
	s.check(g, objs)
}

// H_StoreContain: containment of objects in a store.
func H_StoreContain() {
	storeCase([][]int{{fChild, fKids}, {fChildren, fParent}, {fOnly, fHolder}}[intn("fs", 3)])
}

// H_StoreCross: references between objects in a store.
func H_StoreCross() {
	storeCase(group([]int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy}))
}

// H_StoreNotify: notifications of objects in a store.
func H_StoreNotify() {
	someStore()
	fs := group([]int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy, fChild, fKids, fChildren, fParent, fOnly, fHolder})
	notifyCase(fs, fs)
}

// H_StoreResource: contents of resources that are in a store.
func H_StoreResource() {
	someStore()
	resourceCase(false)
}

// H_StoreList: lists of values in a store.
func H_StoreList() {
	s := newMemStore()
	cache := intn("cache", 2) == 1
	o := ecore.NewEStoreEObjectImpl(cache)
	o.SetEClass(mm.n)
	s.AddRoot(o)
	f := mm.ft(fTags)
	unique := intn("unique", 2) == 1
	if unique {
		f = mm.ft(fUTags)
	}
	ref := intContent(unique)
	s.objs[o].lists[f] = cloneS(ref)
	l := o.EGet(f).(ecore.EList)
	listCase(l, ref, unique, nd.Param("steps"), intElem, mkSpare, "stored list")
	l2 := s.objs[o].lists[f]
	nd.Check(sameSlice(l2, viewS(l)), "the store holds the elements of the list")
	p := ecore.ECacheProvider(o)
	p.SetCache(!cache)
	nd.Check(sameSlice(viewS(o.EGet(f).(ecore.EList)), l2), "the list is the same after a change of cache")
}
