package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_EMap"] = entry{Setup_EMap, H_EMap}
	All["H_EMapMany"] = entry{Setup_EMapMany, H_EMapMany}
}

type plainEntry struct{ k, v any }

func (e *plainEntry) GetKey() any    { return e.k }
func (e *plainEntry) GetValue() any  { return e.v }
func (e *plainEntry) SetKey(k any)   { e.k = k }
func (e *plainEntry) SetValue(v any) { e.v = v }

type mapMM struct {
	fac     ecore.EFactory
	entry   ecore.EClass
	holder  ecore.EClass
	feature ecore.EReference
}

var mp *mapMM

// buildMap makes a class with a map feature.
func buildMap() *mapMM {
	f := ecore.GetFactory()
	m := &mapMM{}
	p := f.CreateEPackage()
	p.SetName("mp")
	p.SetNsURI("http://mp")
	m.entry = f.CreateEClass()
	m.entry.SetName("Entry")
	m.entry.SetInstanceTypeName("java.util.Map$Entry")
	for _, n := range []string{"key", "value"} {
		a := f.CreateEAttribute()
		a.SetName(n)
		a.SetEType(ecore.GetPackage().GetEString())
		m.entry.GetEStructuralFeatures().Add(a)
	}
	m.holder = f.CreateEClass()
	m.holder.SetName("Holder")
	pad := f.CreateEAttribute()
	pad.SetName("pad")
	pad.SetEType(ecore.GetPackage().GetEString())
	m.holder.GetEStructuralFeatures().Add(pad)
	m.feature = f.CreateEReference()
	m.feature.SetName("map")
	m.feature.SetEType(m.entry)
	m.feature.SetUpperBound(-1)
	m.feature.SetContainment(true)
	m.holder.GetEStructuralFeatures().Add(m.feature)
	p.GetEClassifiers().AddAll(ecore.NewImmutableEList([]any{m.entry, m.holder}))
	m.fac = f.CreateEFactory()
	p.SetEFactoryInstance(m.fac)
	return m
}

func Setup_EMap()     { mp = buildMap() }
func Setup_EMapMany() { mp = buildMap() }

// emap is a map together with the entries it has to hold.
type emap struct {
	m     ecore.EMap
	owner ecore.EObject
	mk    func() ecore.EMapEntry
	ref   []any // entries, in order
	fresh int
}

var mapKeys = []string{"a", "b", "c"}

func newEMap(kind int) *emap {
	switch kind {
	case 0:
		return &emap{m: ecore.NewBasicEMap(), mk: func() ecore.EMapEntry { return &plainEntry{} }}
	case 1:
		a := ecore.GetFactory().CreateEAnnotation()
		return &emap{m: a.GetDetails(), owner: a, mk: func() ecore.EMapEntry {
			return ecore.GetFactory().CreateEStringToStringMapEntry().(ecore.EMapEntry)
		}}
	}
	o := newKind(kind-2, mp.holder)
	return &emap{m: o.EGet(mp.feature).(ecore.EMap), owner: o, mk: func() ecore.EMapEntry { return mp.fac.Create(mp.entry).(ecore.EMapEntry) }}
}

func (e *emap) value() any {
	if intn("blank", 2) == 1 {
		if e.owner == nil {
			return nil
		}
		return ""
	}
	e.fresh++
	return string([]byte{'v', byte('0' + e.fresh)})
}

func (e *emap) newEntry() ecore.EMapEntry {
	n := e.mk()
	k := mapKeys[intn("key", nd.Param("keys"))]
	if nd.Param("dups") == 0 {
		nd.Assume(e.find(k) < 0)
	}
	n.SetKey(k)
	n.SetValue(e.value())
	return n
}

func (e *emap) find(k string) int {
	for i, x := range e.ref {
		if x.(ecore.EMapEntry).GetKey() == any(k) {
			return i
		}
	}
	return -1
}

func (e *emap) check() {
	nd.Check(sameSlice(viewS(e.m), e.ref), "a map is the list of its entries")
	keys := 0
	values := map[any]bool{}
	for _, x := range e.ref {
		values[x.(ecore.EMapEntry).GetValue()] = true
		if e.owner != nil {
			nd.Check(x.(ecore.EObject).EContainer() == e.owner, "an entry of a map feature is contained")
		}
	}
	m := e.m.ToMap()
	for _, k := range mapKeys {
		v := e.m.GetValue(k)
		nd.Check(e.m.ContainsKey(k) == (e.find(k) >= 0), "a map contains exactly the keys of its entries")
		w, ok := m[k]
		nd.Check(ok == (e.find(k) >= 0), "a map converts to exactly the keys of its entries")
		if e.find(k) < 0 {
			nd.Check(v == nil, "a key without entry has no value")
			continue
		}
		keys++
		good := false
		for _, x := range e.ref {
			n := x.(ecore.EMapEntry)
			if n.GetKey() == any(k) && n.GetValue() == v {
				good = true
			}
		}
		nd.Check(good, "the value of a key is the value of an entry with that key")
		nd.Check(w == v, "a map converts to the values of its keys")
	}
	nd.Check(len(m) == keys, "a map converts to as many keys as it has")
	if e.owner == nil {
		nd.Check(e.m.ContainsValue(nil) == values[nil], "a map contains exactly the values of its entries")
	} else {
		nd.Check(e.m.ContainsValue("") == values[""], "a map contains exactly the values of its entries")
	}
	for i := 0; i < e.fresh; i++ {
		v := string([]byte{'v', byte('1' + i)})
		nd.Check(e.m.ContainsValue(v) == values[v], "a map contains exactly the values of its entries")
	}
}

func (e *emap) step() {
	l := e.ref
	n := len(l)
	switch intn("op", 11) {
	case 0:
		k, v := mapKeys[intn("key", nd.Param("keys"))], e.value()
		i := e.find(k)
		e.m.Put(k, v)
		if i < 0 {
			nd.Check(e.m.Size() == n+1, "putting a new key adds an entry")
			x := e.m.Get(n).(ecore.EMapEntry)
			nd.Check(x.GetKey() == any(k) && x.GetValue() == v, "putting a new key adds an entry with key and value")
			e.ref = append(cloneS(l), x)
		} else {
			nd.Check(l[i].(ecore.EMapEntry).GetValue() == v, "putting a present key changes its entry")
		}
		if intn("get", 2) == 1 {
			nd.Check(e.m.GetValue(k) == v, "a map shows the value put last")
		}
	case 1:
		k := mapKeys[intn("key", nd.Param("keys"))]
		i := e.find(k)
		r := e.m.RemoveKey(k)
		if i < 0 {
			nd.Check(r == nil, "removing an absent key does nothing")
		} else {
			nd.Check(r == l[i].(ecore.EMapEntry).GetValue(), "removing a key returns its value")
			e.ref = removeS(l, i)
		}
	case 2:
		x := e.newEntry()
		e.m.Add(x)
		e.ref = append(cloneS(l), x)
	case 3:
		nd.Assume(n > 0)
		x := e.newEntry()
		e.m.Insert(0, x)
		e.ref = insertS(l, 0, x)
	case 4:
		nd.Assume(n > 0)
		i := intn("i", n)
		x := e.mk()
		k := mapKeys[intn("key", nd.Param("keys"))]
		if nd.Param("dups") == 0 {
			j := e.find(k)
			nd.Assume(j < 0 || j == i)
		}
		x.SetKey(k)
		x.SetValue(e.value())
		e.m.Set(i, x)
		e.ref = cloneS(l)
		e.ref[i] = x
	case 5:
		nd.Assume(n > 0)
		i := intn("i", n)
		if intn("how", 2) == 0 {
			e.m.RemoveAt(i)
		} else {
			e.m.Remove(l[i])
		}
		e.ref = removeS(l, i)
	case 6:
		nd.Assume(n > 1)
		e.m.Move(0, n-1)
		e.ref = moveS(l, 0, n-1)
	case 7:
		e.m.Clear()
		e.ref = nil
	case 8:
		x := e.newEntry()
		e.ref = append(cloneS(l), x)
		y := e.newEntry()
		e.ref = append(e.ref, y)
		e.m.AddAll(ecore.NewImmutableEList([]any{x, y}))
	case 9:
		nd.Assume(n > 1)
		e.m.RemoveAll(ecore.NewImmutableEList([]any{l[0], l[n-1]}))
		e.ref = cloneS(l[1 : n-1])
	case 10:
		nd.Assume(n > 1)
		e.m.RemoveRange(0, 2)
		e.ref = cloneS(l[2:])
	}
}

// H_EMap: a map is the list of its entries, seen by key.
func mapCase(e *emap) {
	for s := 0; s < nd.Param("steps"); s++ {
		e.step()
		if s+1 < nd.Param("steps") && intn("look", 2) == 1 {
			e.check()
		}
	}
	e.check()
}

func H_EMap() {
	e := newEMap(intn("kind", nd.Param("kinds")))
	mapCase(e)
	im := ecore.NewImmutableEMap(e.ref)
	for _, k := range mapKeys {
		nd.Check(im.ContainsKey(k) == (e.find(k) >= 0), "an immutable map contains the keys of its entries")
		if e.find(k) >= 0 && nd.Param("dups") == 0 {
			nd.Check(im.GetValue(k) == e.ref[e.find(k)].(ecore.EMapEntry).GetValue(), "an immutable map shows the values of its entries")
		}
	}
	nd.Reach("end")
}

// H_EMapMany: one change of a map with several entries.
func H_EMapMany() {
	e := newEMap(intn("kind", nd.Param("kinds")))
	for i := intn("size", nd.Param("size")+1); i > 0; i-- {
		x := e.newEntry()
		e.m.Add(x)
		e.ref = append(e.ref, x)
	}
	if intn("look", 2) == 1 {
		e.check()
	}
	e.step()
	e.check()
	nd.Reach("end")
}
