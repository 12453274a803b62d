package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Traverse"] = entry{Setup_Traverse, H_Traverse}
	All["H_ContentsViews"] = entry{Setup_ContentsViews, H_ContentsViews}
	All["H_TraverseDeep"] = entry{Setup_TraverseDeep, H_TraverseDeep}
	All["H_AllOfClass"] = entry{nil, H_AllOfClass}
}

func Setup_Traverse()      { mm = buildMM(false, false) }
func Setup_TraverseDeep()  { mm = buildMM(false, false) }
func Setup_ContentsViews() { mm = buildMM(false, false) }

// preorder lists the objects inside a, in order of features and positions.
func (g *gstate) preorder(a int) []int {
	var r []int
	for _, f := range mm.order() {
		d := mm.f[f]
		if d.cont {
			for _, b := range g.st[a][f] {
				r = append(r, b)
				r = append(r, g.preorder(b)...)
			}
		}
	}
	return r
}

// iterEager reads an iterator, asking more than once whether there is a next element.
func iterEager(it ecore.EIterator, ask int) []any {
	r := []any{}
	for {
		if ask > 0 {
			h := it.HasNext()
			for i := 1; i < ask; i++ {
				nd.Check(it.HasNext() == h, "asking an iterator twice changes nothing")
			}
			if !h {
				return r
			}
		}
		r = append(r, it.Next())
	}
}

// H_Traverse: the contents of an object, all contents, ancestors and removal.
func H_Traverse() {
	k := nd.Param("objs")
	g, objs := someForest(k, treeFs)
	var res ecore.EResource
	if intn("resource", 2) == 1 {
		res = ecore.NewEResourceImpl()
		for _, i := range g.roots[0] {
			res.GetContents().Add(objs[i])
		}
	}
	check := func() {
		for a, o := range objs {
			want := g.objsOf(objs, g.preorder(a))
			nd.Check(sameSlice(iterEager(o.EAllContents(), 2), want), "all contents are the objects inside, each before its own contents")
			it := o.EAllContents()
			for _, x := range want {
				nd.Check(it.Next() == x, "all contents can be read without asking")
			}
			nd.Check(!it.HasNext(), "all contents end")
			for b := range objs {
				nd.Check(ecore.IsAncestor(o, objs[b]) == g.within(b, a), "an ancestor of an object is the object or holds one")
			}
			nd.Check(ecore.GetAncestor(o, mm.n) == o, "the ancestor of a class is the nearest object of the class")
		}
		if res != nil {
			var want []any
			for _, r := range g.roots[0] {
				want = append(append(want, objs[r]), g.objsOf(objs, g.preorder(r))...)
			}
			nd.Check(sameSlice(iterS(res.GetAllContents()), want), "all contents of a resource, in order")
			in := ecore.NewImmutableEList(want)
			for i, x := range want {
				nd.Check(in.IndexOf(x) == i, "all contents of a resource, each once")
			}
		}
	}
	check()
	switch intn("op", 3) {
	case 0:
		b := intn("b", k)
		bidi := false
		if _, f := g.container(b); f >= 0 {
			bidi = mm.f[f].opp >= 0
		}
		ecore.Remove(objs[b])
		if bidi && objs[b].EContainer() != nil {
			nd.KnownCheck(false, "containment-feature-bidirectional", "removal of an object held by a bidirectional containment")
			return
		}
		c, f := g.container(b)
		if c >= 0 {
			g.unlink(c, f, b)
		}
		if res != nil {
			g.unroot(b)
		}
		nd.Check(objs[b].EContainer() == nil && objs[b].EResource() == nil, "a removed object has no container and no resource")
		nd.Reach("removed")
	case 1:
		a, f := intn("a", k), treeFs[intn("in", len(treeFs))]
		b := intn("b", k)
		nd.Assume(!g.cyclic(a, f, b))
		if mm.f[f].many {
			nd.Assume(idxI(g.st[a][f], b) < 0)
			mm.list(objs[a], f).Insert(0, objs[b])
			g.link(a, f, b, 0)
		} else {
			nd.Assume(len(g.st[a][f]) == 0)
			objs[a].ESet(mm.ft(f), objs[b])
			g.link(a, f, b, -1)
		}
		if res == nil {
			g.roots[0] = nil
		}
	case 2:
		a, f := intn("a", k), treeFs[intn("in", len(treeFs))]
		nd.Assume(len(g.st[a][f]) > 0)
		objs[a].EUnset(mm.ft(f))
		for _, b := range append([]int{}, g.st[a][f]...) {
			g.unlink(a, f, b)
		}
	}
	check()
	nd.Reach("end")
}

// H_ContentsViews: every read access to the contents and the cross references.
func H_ContentsViews() {
	k := 3
	g := newG(k)
	objs := newObjs(k)
	fs := []int{fChild, fChildren, fKids, fOnly, fRef, fRefs, fNext, fThings, fLinks}
	for s := 0; s < nd.Param("links"); s++ {
		f := fs[intn("f", len(fs))]
		b := intn("b", k)
		nd.Assume(!g.cyclic(0, f, b) && idxI(g.st[0][f], b) < 0)
		if mm.f[f].many {
			mm.list(objs[0], f).Add(objs[b])
		} else {
			objs[0].ESet(mm.ft(f), objs[b])
		}
		g.link(0, f, b, -1)
	}
	var kids, cross []any
	for _, f := range mm.order() {
		d := mm.f[f]
		if d.cont {
			kids = append(kids, g.objsOf(objs, g.st[0][f])...)
		} else if d.attr == "" && !isContainer(f) {
			cross = append(cross, g.objsOf(objs, g.st[0][f])...)
		}
	}
	for i, l := range []ecore.EList{objs[0].EContents(), objs[0].ECrossReferences()} {
		want := [][]any{kids, cross}[i]
		for j := 0; j < 2; j++ {
			checkViews(l, want, "contents")
			for _, o := range objs {
				nd.Check(l.Contains(o) == (indexOf(want, o) >= 0), "contents contains its elements")
				nd.Check(l.IndexOf(o) == indexOf(want, o), "index of a content")
			}
			ask := iterEager(l.Iterator(), 2)
			nd.Check(sameSlice(ask, want), "contents by iterator")
			it := l.Iterator()
			for _, x := range want {
				nd.Check(it.Next() == x, "contents can be read without asking")
			}
			nd.Check(try(func() { it.Next() }), "reading past the contents panics")
			nd.Check(try(func() { l.Get(len(want)) }), "reading past the contents panics")
			for _, x := range want {
				n := 0
				for y := range l.All() {
					n++
					if y == x {
						break
					}
				}
				nd.Check(n == indexOf(want, x)+1, "a sequence can be left early")
			}
			l = l.(ecore.EObjectList).GetUnResolvedList()
		}
	}
	nd.Reach("end")
}

// H_AllOfClass: the contents of a class are found through all containment references.
func H_AllOfClass() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetEFactoryInstance(f.CreateEFactory())
	var cs []ecore.EClass
	for _, n := range []string{"A", "B", "C"} {
		c := f.CreateEClass()
		c.SetName(n)
		p.GetEClassifiers().Add(c)
		cs = append(cs, c)
	}
	base := f.CreateEClass()
	base.SetName("Base")
	p.GetEClassifiers().Add(base)
	type edge struct {
		s, t int
		many bool
		r    ecore.EReference
	}
	var es []edge
	nr := nd.Param("refs")
	for i := 0; i < nr; i++ {
		e := edge{s: intn("source", 3), t: intn("target", 3), many: intn("many", 2) == 1}
		nd.Assume(i == 0 || es[i-1].s <= e.s)
		e.r = f.CreateEReference()
		e.r.SetName([]string{"r0", "r1", "r2", "r3"}[i])
		e.r.SetContainment(true)
		e.r.SetEType(cs[e.t])
		if e.many {
			e.r.SetUpperBound(-1)
		}
		host := cs[e.s]
		if i == 0 && intn("inherited", 2) == 1 {
			host.GetESuperTypes().Add(base)
			host = base
		}
		host.GetEStructuralFeatures().Add(e.r)
		es = append(es, e)
	}
	mk := func(i int) ecore.EObject {
		o := ecore.NewDynamicEObjectImpl()
		o.SetEClass(cs[i])
		return o
	}
	objs := []ecore.EObject{mk(0)}
	kind := []int{0}
	for len(objs) < nd.Param("objs") {
		a := intn("in", len(objs))
		e := es[intn("ref", nr)]
		nd.Assume(e.s == kind[a])
		o := mk(e.t)
		if e.many {
			objs[a].EGet(e.r).(ecore.EList).Add(o)
		} else {
			nd.Assume(!objs[a].EIsSet(e.r))
			objs[a].ESet(e.r, o)
		}
		objs = append(objs, o)
		kind = append(kind, e.t)
	}
	for end, c := range cs {
		got := iterEager(ecore.EAllContentsWithClass(objs[0], c), 1)
		n := 0
		for i := 1; i < len(objs); i++ {
			if kind[i] == end {
				n++
				nd.Check(has(got, objs[i]), "the contents of a class include every object of the class")
			}
		}
		nd.Check(len(got) == n, "the contents of a class are objects of the class, each once")
	}
	nd.Check(ecore.GetAncestor(objs[len(objs)-1], cs[0]) != nil, "an ancestor of the class of the root")
	for i, o := range objs {
		for j, c := range cs {
			var want ecore.EObject
			for x := o; x != nil; x = x.EContainer() {
				if x.EClass() == cs[j] {
					want = x
					break
				}
			}
			nd.Check(ecore.GetAncestor(objs[i], c) == want, "the ancestor of a class is the nearest object of the class")
		}
	}
	nd.Reach("end")
}

// H_TraverseDeep: traversal of forests of every shape.
func H_TraverseDeep() {
	k := nd.Param("objs")
	g, objs := spineForest(k, []int{fChildren, fKids}[intn("in", 2)])
	for a, o := range objs {
		nd.Check(sameSlice(iterEager(o.EAllContents(), 1), g.objsOf(objs, g.preorder(a))), "all contents are the objects inside, each before its own contents")
	}
	r := ecore.NewEResourceImpl()
	for _, i := range g.roots[0] {
		r.GetContents().Add(objs[i])
	}
	nd.Check(sameSlice(iterS(r.GetAllContents()), g.objsOf(objs, seq(k))), "all contents of a resource, in order")
	got := iterEager(ecore.EAllContentsWithClass(objs[0], mm.n), 1)
	want := g.objsOf(objs, g.preorder(0))
	nd.Check(len(got) == len(want), "the contents of a class are objects of the class, each once")
	for _, x := range want {
		nd.Check(has(got, x), "the contents of a class include every object of the class")
	}
	nd.Reach("end")
}

func seq(n int) []int {
	r := []int{}
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}
