package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

const listOps = 13

// listStep applies operation op with symbolic arguments to l and returns the
// content the list must have afterwards, given content ref before. elem makes
// an element, coll a collection and its content.
func listStep(l ecore.EList, ref []any, unique bool, op int, elem func(string) any, coll func(string) (ecore.Collection, []any)) []any {
	n := len(ref)
	idx := func(name string) int { return nd.Conc(nd.Int(name, -1, n+1)) }
	// fresh are the elements of c that a unique list accepts
	fresh := func(c []any) []any {
		if !unique {
			return c
		}
		r := []any{}
		for _, x := range dedupS(c) {
			if indexOf(ref, x) < 0 {
				r = append(r, x)
			}
		}
		return r
	}
	switch op {
	case 0:
		x := elem("x")
		r := l.Add(x)
		if unique && indexOf(ref, x) >= 0 {
			nd.Check(!r, "adding a present element to a unique list reports no change")
			return ref
		}
		nd.Check(r, "adding an element reports a change")
		return append(cloneS(ref), x)
	case 1:
		c, cs := coll("c")
		f := fresh(cs)
		r := l.AddAll(c)
		if unique {
			nd.Check(r == (len(f) > 0), "adding a collection reports whether the list changed")
		}
		return append(cloneS(ref), f...)
	case 2:
		i, x := idx("i"), elem("x")
		var r bool
		p := try(func() { r = l.Insert(i, x) })
		if i < 0 || i > n {
			nd.Check(p, "inserting out of range is rejected")
			return ref
		}
		nd.Check(!p, "inserting in range is accepted")
		if unique && indexOf(ref, x) >= 0 {
			nd.Check(!r, "inserting a present element in a unique list reports no change")
			return ref
		}
		nd.Check(r, "inserting an element reports a change")
		return insertS(ref, i, x)
	case 3:
		i := idx("i")
		c, cs := coll("c")
		f := fresh(cs)
		var r bool
		p := try(func() { r = l.InsertAll(i, c) })
		if i < 0 || i > n {
			nd.Check(p, "inserting a collection out of range is rejected")
			return ref
		}
		nd.Check(!p, "inserting a collection in range is accepted")
		if unique {
			nd.Check(r == (len(f) > 0), "inserting a collection reports whether the list changed")
		}
		return insertS(ref, i, f...)
	case 4:
		i, x := idx("i"), elem("x")
		p := try(func() { l.MoveObject(i, x) })
		j := indexOf(ref, x)
		if j < 0 || i < 0 || i >= n {
			nd.Check(p, "moving an absent element or out of range is rejected")
			return ref
		}
		nd.Check(!p, "moving an element in range is accepted")
		return moveS(ref, j, i)
	case 5:
		i, j := idx("i"), idx("j")
		var r any
		p := try(func() { r = l.Move(i, j) })
		if i < 0 || i >= n || j < 0 || j >= n {
			nd.Check(p, "moving out of range is rejected")
			return ref
		}
		nd.Check(!p, "moving in range is accepted")
		nd.Check(r == ref[i], "move returns the moved element")
		return moveS(ref, i, j)
	case 6:
		i := idx("i")
		var r any
		p := try(func() { r = l.RemoveAt(i) })
		if i < 0 || i >= n {
			nd.Check(p, "removing out of range is rejected")
			return ref
		}
		nd.Check(!p, "removing in range is accepted")
		nd.Check(r == ref[i], "remove returns the removed element")
		return removeS(ref, i)
	case 7:
		x := elem("x")
		r := l.Remove(x)
		j := indexOf(ref, x)
		nd.Check(r == (j >= 0), "remove reports whether the element was present")
		if j < 0 {
			return ref
		}
		return removeS(ref, j)
	case 8:
		i, j := idx("i"), idx("j")
		p := try(func() { l.RemoveRange(i, j) })
		if i < 0 || i > n || j < 0 || j > n || i > j {
			nd.Check(p, "removing an invalid range is rejected")
			return ref
		}
		if i == n {
			return ref // empty range at the end: either answer
		}
		nd.Check(!p, "removing a valid range is accepted")
		return append(cloneS(ref[:i]), ref[j:]...)
	case 9:
		c, cs := coll("c")
		r := l.RemoveAll(c)
		out := []any{}
		for _, x := range ref {
			if indexOf(cs, x) < 0 {
				out = append(out, x)
			}
		}
		nd.Check(r == (len(out) != n), "removing a collection reports whether the list changed")
		return out
	case 10:
		i := idx("i")
		var r any
		p := try(func() { r = l.Get(i) })
		if i < 0 || i >= n {
			nd.Check(p, "reading out of range is rejected")
			return ref
		}
		nd.Check(!p, "reading in range is accepted")
		nd.Check(r == ref[i], "get returns the element at the index")
		return ref
	case 11:
		i, x := idx("i"), elem("x")
		var r any
		p := try(func() { r = l.Set(i, x) })
		if i < 0 || i >= n {
			nd.Check(p, "replacing out of range is rejected")
			return ref
		}
		if k := indexOf(ref, x); unique && k >= 0 && k != i {
			nd.Check(p, "a duplicate replacement in a unique list is rejected")
			return ref
		}
		nd.Check(!p, "replacing in range is accepted")
		nd.Check(r == ref[i], "set returns the replaced element")
		out := cloneS(ref)
		out[i] = x
		return out
	case 12:
		l.Clear()
		return []any{}
	}
	panic("op")
}

// listCase drives one list of initial content ref through steps operations.
func listCase(l ecore.EList, ref []any, unique bool, steps int, elem func(string) any, mk func(string, []any) ecore.Collection, what string) {
	var srcs []ecore.Collection
	var srcRefs [][]any
	coll := func(name string) (ecore.Collection, []any) {
		k := nd.Conc(nd.Int(name+".n", -1, nd.Param("coll")))
		if k < 0 {
			return l, cloneS(ref) // the list itself
		}
		var d []any
		for i := 0; i < k; i++ {
			d = append(d, elem(name+".e"))
		}
		c := mk(name, d)
		srcs = append(srcs, c)
		srcRefs = append(srcRefs, cloneS(d))
		return c, cloneS(d)
	}
	for s := 0; s < steps; s++ {
		op := intn("op", listOps)
		ref = listStep(l, ref, unique, op, elem, coll)
		checkViews(l, ref, what)
		for i, c := range srcs {
			nd.Check(sameSlice(c.ToArray(), srcRefs[i]), what+": the source collection is unchanged")
		}
		x := elem("probe")
		nd.Check(l.IndexOf(x) == indexOf(ref, x), what+": index of")
		nd.Check(l.Contains(x) == has(ref, x), what+": contains")
		if unique {
			for i := range ref {
				for j := 0; j < i; j++ {
					nd.Check(ref[i] != ref[j], what+": no duplicates")
				}
			}
		}
		nd.Reach("step")
	}
	nd.Observe(l.Size())
}

// plain symbolic integer elements
func intElem(name string) any { return nd.Int(name, 0, nd.Param("vals")-1) }

func spareSlice(d []any) []any {
	r := make([]any, 0, len(d)+intn("spare", nd.Param("spare")+1))
	return append(r, d...)
}

func mkSpare(name string, d []any) ecore.Collection { return ecore.NewBasicEList(spareSlice(d)) }

func intContent(unique bool) []any {
	n := intn("n", nd.Param("n")+1)
	var ref []any
	for i := 0; i < n; i++ {
		x := nd.Int("init", 0, nd.Param("vals")-1)
		if unique {
			for _, y := range ref {
				nd.Assume(y != any(x))
			}
		}
		ref = append(ref, x)
	}
	return ref
}

func init() {
	All["H_ListPlain"] = entry{nil, H_ListPlain}
	All["H_ListUnique"] = entry{nil, H_ListUnique}
	All["H_ListNotifying"] = entry{nil, H_ListNotifying}
	All["H_ListDataType"] = entry{nil, H_ListDataType}
	All["H_ListImmutable"] = entry{nil, H_ListImmutable}
}

func H_ListPlain() {
	ref := intContent(false)
	l := ecore.NewBasicEList(spareSlice(ref))
	listCase(l, ref, false, nd.Param("steps"), intElem, mkSpare, "list")
}

func H_ListUnique() {
	ref := intContent(true)
	l := ecore.NewUniqueBasicEList(spareSlice(ref))
	listCase(l, ref, true, nd.Param("steps"), intElem, mkSpare, "unique list")
}

func H_ListNotifying() {
	ref := intContent(true)
	l := ecore.NewBasicENotifyingList()
	for _, x := range ref {
		l.Add(x)
	}
	listCase(l, ref, true, nd.Param("steps"), intElem, mkSpare, "notifying list")
}

func H_ListDataType() {
	unique := nd.Conc(nd.Int("unique", 0, 1)) == 1
	ref := intContent(unique)
	o := ecore.GetFactory().CreateEObject().(ecore.EObjectInternal)
	l := ecore.NewBasicEDataTypeList(o, 0, unique)
	for _, x := range ref {
		l.Add(x)
	}
	listCase(l, ref, unique, nd.Param("steps"), intElem, mkSpare, "data type list")
}

func H_ListImmutable() {
	ref := intContent(false)
	var l ecore.EList
	if len(ref) == 0 && nd.Bool("empty") {
		l = ecore.NewEmptyImmutableEList()
	} else {
		l = ecore.NewImmutableEList(spareSlice(ref))
	}
	checkViews(l, ref, "immutable list")
	x := intElem("probe")
	nd.Check(l.IndexOf(x) == indexOf(ref, x), "immutable list: index of")
	nd.Check(l.Contains(x) == has(ref, x), "immutable list: contains")
	i := nd.Conc(nd.Int("i", -1, len(ref)+1))
	j := nd.Conc(nd.Int("j", -1, len(ref)+1))
	c := ecore.NewBasicEList([]any{x})
	p := false
	switch intn("op", listOps) {
	case 0:
		p = try(func() { l.Add(x) })
	case 1:
		p = try(func() { l.AddAll(c) })
	case 2:
		p = try(func() { l.Insert(i, x) })
	case 3:
		p = try(func() { l.InsertAll(i, c) })
	case 4:
		p = try(func() { l.MoveObject(i, x) })
	case 5:
		p = try(func() { l.Move(i, j) })
	case 6:
		p = try(func() { l.RemoveAt(i) })
	case 7:
		p = try(func() { l.Remove(x) })
	case 8:
		p = try(func() { l.RemoveRange(i, j) })
	case 9:
		p = try(func() { l.RemoveAll(c) })
	case 10:
		var r any
		p = try(func() { r = l.Get(i) })
		if i >= 0 && i < len(ref) {
			nd.Check(!p && r == ref[i], "immutable list: get")
			p = true
		}
	case 11:
		p = try(func() { l.Set(i, x) })
	case 12:
		p = try(func() { l.Clear() })
	}
	nd.Check(p, "immutable list: a change is rejected")
	checkViews(l, ref, "immutable list after a rejected change")
	nd.Reach("step")
}
