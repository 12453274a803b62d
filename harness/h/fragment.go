package h

import (
	"strconv"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Fragment"] = entry{Setup_Fragment, H_Fragment}
	All["H_FragmentModel"] = entry{Setup_FragmentModel, H_FragmentModel}
	All["H_FragmentLookup"] = entry{Setup_FragmentLookup, H_FragmentLookup}
	All["H_FragmentNames"] = entry{nil, H_FragmentNames}
	All["H_FragmentAny"] = entry{Setup_FragmentAny, H_FragmentAny}
	All["H_FragmentObject"] = entry{Setup_FragmentObject, H_FragmentObject}
}

func Setup_Fragment()       { mm = buildMM(false, false) }
func Setup_FragmentLookup() { mm = buildMM(false, false) }
func Setup_FragmentObject() { mm = buildMM(false, false) }
func Setup_FragmentModel()  { ecore.GetPackage() }

var treeFs = []int{fChild, fChildren, fKids, fOnly}

// someForest puts k objects into any forest; object 0 is always a root and
// roots[0] holds the roots.
func someForest(k int, fs []int) (*gstate, []ecore.EObject) {
	g := newG(k)
	g.nu = k
	g.roots = [][]int{nil}
	objs := newObjs(k)
	g.roots[0] = []int{0}
	for i := 1; i < k; i++ {
		p := intn("parent", i+1) - 1
		if p < 0 {
			g.roots[0] = append(g.roots[0], i)
			continue
		}
		f := fs[intn("in", len(fs))]
		if !mm.f[f].many {
			nd.Assume(len(g.st[p][f]) == 0)
			objs[p].ESet(mm.ft(f), objs[i])
		} else {
			mm.list(objs[p], f).Add(objs[i])
		}
		g.link(p, f, i, -1)
	}
	return g, objs
}

// spineForest puts k objects into any ordered forest; object i is added under
// the previous object or one of its ancestors, so that the order of the objects
// is the order of traversal. All objects are held by feature f.
func spineForest(k, f int) (*gstate, []ecore.EObject) {
	g := newG(k)
	g.nu = k
	g.roots = [][]int{{0}}
	objs := newObjs(k)
	for i := 1; i < k; i++ {
		var up []int
		for a := i - 1; a >= 0; {
			up = append(up, a)
			a, _ = g.container(a)
		}
		j := intn("up", len(up)+1)
		if j == len(up) {
			g.roots[0] = append(g.roots[0], i)
			continue
		}
		nd.Assume(mm.f[f].many || len(g.st[up[j]][f]) == 0)
		if mm.f[f].many {
			mm.list(objs[up[j]], f).Add(objs[i])
		} else {
			objs[up[j]].ESet(mm.ft(f), objs[i])
		}
		g.link(up[j], f, i, -1)
	}
	return g, objs
}

// path is the reference fragment path of object i.
func (g *gstate) path(i int) string {
	c, f := g.container(i)
	if c < 0 {
		if len(g.roots[0]) == 1 {
			return "/"
		}
		return "/" + strconv.Itoa(idxI(g.roots[0], i))
	}
	s := g.path(c) + "/@" + mm.f[f].name
	if mm.f[f].many {
		s += "." + strconv.Itoa(idxI(g.st[c][f], i))
	}
	return s
}

func (g *gstate) rooted(i int) bool {
	for {
		c, _ := g.container(i)
		if c < 0 {
			return idxI(g.roots[0], i) >= 0
		}
		i = c
	}
}

func newManager(kind int) ecore.EObjectIDManager {
	switch kind {
	case 1:
		return ecore.NewEObjectIDManagerImpl()
	case 2:
		return ecore.NewIncrementalIDManager()
	}
	return nil
}

// H_Fragment: the fragment of an object finds this object.
func H_Fragment() {
	k := nd.Param("objs")
	g, objs := someForest(k, treeFs)
	rs := ecore.NewEResourceSetImpl()
	r := ecore.NewEResourceImpl()
	r.SetURI(ecore.NewURI("mem:/r"))
	rs.GetResources().Add(r)
	kind := intn("manager", 3)
	if m := newManager(kind); m != nil {
		r.SetObjectIDManager(m)
	}
	ids := make([]string, k)
	late := intn("late", 2) == 1
	setIDs := func() {
		for i := 0; i < nd.Param("ids"); i++ {
			ids[i] = opt("id", "", "x", "y.1", "@z?")
			for j := 0; j < i; j++ {
				nd.Assume(ids[i] == "" || ids[i] != ids[j])
			}
			if ids[i] != "" {
				objs[i].ESet(mm.ft(fID), ids[i])
			}
		}
	}
	if !late {
		setIDs()
	}
	for _, i := range g.roots[0] {
		r.GetContents().Add(objs[i])
	}
	if late {
		setIDs()
	}
	changeForest(g, objs, r.GetContents())
	seen := map[string]int{}
	for i, o := range objs {
		f := r.GetURIFragment(o)
		if !g.rooted(i) {
			if ids[i] == "" {
				nd.Check(f == "/-1", "an object outside the resource has no fragment")
			}
			continue
		}
		if ids[i] != "" {
			nd.Check(f == ids[i], "the fragment of an object with an id is its id")
		} else if kind != 2 {
			nd.Check(f == g.path(i), "the fragment of an object without id is its path")
		}
		_, dup := seen[f]
		nd.Check(!dup, "different objects have different fragments")
		seen[f] = i
		nd.Check(r.GetEObject(f) == o, "the fragment of an object finds the object")
		nd.Check(r.GetEObject(g.path(i)) == o, "the path of an object finds the object")
		u := ecore.GetURI(o)
		nd.Check(u.Fragment() == f && u.TrimFragment().Equals(r.GetURI()), "the uri of an object is its resource with its fragment")
		nd.Check(rs.GetEObject(u, false) == o, "the uri of an object finds the object")
	}
	nd.Check(r.GetEObject("/-1") == nil, "the fragment of objects outside finds nothing")
	nd.Check(r.GetEObject("nobody") == nil, "an unknown id finds nothing")
	nd.Reach("end")
}

// changeForest moves an object of a forest or takes it out.
func changeForest(g *gstate, objs []ecore.EObject, contents ecore.EList) {
	switch intn("change", 4) {
	case 1:
		nd.Assume(len(g.roots[0]) > 1)
		contents.Move(0, 1)
		x := g.roots[0][0]
		g.roots[0] = insI(delI(g.roots[0], x), 1, x)
	case 2:
		i := intn("moved", len(objs))
		c, f := g.container(i)
		nd.Assume(c >= 0)
		if intn("out", 2) == 1 {
			if mm.f[f].many {
				mm.list(objs[c], f).Remove(objs[i])
			} else {
				objs[c].EUnset(mm.ft(f))
			}
			g.unlink(c, f, i)
		} else {
			contents.Insert(0, objs[i])
			g.root(0, i, 0)
		}
	case 3:
		i, p := intn("moved", len(objs)), intn("to", len(objs))
		nd.Assume(!g.within(p, i))
		mm.list(objs[p], fChildren).Insert(0, objs[i])
		if c, f := g.container(i); c == p && f == fChildren {
			return
		}
		g.link(p, fChildren, i, 0)
	}
}

// H_FragmentLookup: any well-formed fragment path finds what it names.
func H_FragmentLookup() {
	k := nd.Param("objs")
	g, objs := someForest(k, []int{fChild, fChildren})
	r := ecore.NewEResourceImpl()
	for _, i := range g.roots[0] {
		r.GetContents().Add(objs[i])
	}
	objs[k-1].ESet(mm.ft(fID), "x")
	s, cur := "/", -1
	switch intn("root", 4) {
	case 0:
		cur = 0
	case 1:
		d := nd.Str("pos", 1, "0123-x")
		s += d
		if d[0] >= '0' && d[0] <= '9' && int(d[0]-'0') < len(g.roots[0]) {
			cur = g.roots[0][d[0]-'0']
		}
	case 2:
		s += "?x"
		if g.rooted(k - 1) {
			cur = k - 1
		}
	case 3:
		s += "?y"
	}
	for n := intn("segs", 3); n > 0; n-- {
		if intn("seg", 2) == 0 {
			s += "/@child"
			if cur >= 0 && len(g.st[cur][fChild]) > 0 {
				cur = g.st[cur][fChild][0]
			} else {
				cur = -1
			}
		} else {
			d := nd.Str("pos", 1, "0123")
			s += "/@children." + d
			p := int(d[0] - '0')
			if cur >= 0 && p < len(g.st[cur][fChildren]) {
				cur = g.st[cur][fChildren][p]
			} else {
				cur = -1
			}
		}
	}
	o := r.GetEObject(s)
	if cur < 0 {
		nd.Check(o == nil, "a path that leads nowhere finds nothing")
	} else {
		nd.Check(o == objs[cur], "a path finds the object it leads to")
	}
	// ids, possibly with a comment between question marks
	switch intn("id", 4) {
	case 0:
		nd.Check(r.GetEObject("x") == objs[k-1], "an id finds its object")
	case 1:
		nd.Check(r.GetEObject("x?"+nd.Str("c", intn("c.len", 3), "ab")+"?") == objs[k-1], "an id with a comment finds its object")
	case 2:
		// "" names the first root
		nd.Check(r.GetEObject("/") == objs[0], "the empty path finds the first root")
	case 3:
		nd.Check(r.GetEObject("?") == nil, "a fragment that is no id finds nothing")
	}
	nd.Reach("end")
}

// H_FragmentObject: uris and paths of objects outside any resource.
func H_FragmentObject() {
	k := nd.Param("objs")
	g, objs := someForest(k, treeFs)
	for i, o := range objs {
		p := g.path(i)
		j := i
		for {
			c, _ := g.container(j)
			if c < 0 {
				break
			}
			j = c
		}
		// the part of the path after the root segment
		rel := ""
		if j != i {
			rel = p[strings.Index(p, "@"):]
		}
		u := ecore.GetURI(o)
		nd.Check(u.Fragment() == "//"+rel, "the uri of an object outside resources is its path from the root")
		nd.Check(ecore.GetEObject(objs[j], rel) == o, "the path of an object from its root finds it")
		// nothing there
		nd.Check(ecore.GetEObject(o, "@children.7/@child") == nil, "a path that leads nowhere finds nothing")
	}
	nd.Reach("end")
}

// H_FragmentModel: fragments of model elements, which use names and sources.
func H_FragmentModel() {
	fac := ecore.GetFactory()
	names := []string{"", "a", "a.1", "@a", "%", "a b", "a/b", "%a%", ".", "$"}
	name := func() string {
		if intn("sym", 2) == 1 {
			return nd.Str("name", 1+intn("len", nd.Param("n")), "a1.%@")
		}
		return opt("name", names...)
	}
	p := fac.CreateEPackage()
	p.SetName("p")
	r := ecore.NewEResourceImpl()
	r.GetContents().Add(p)
	n1 := name()
	n2 := n1
	if intn("same", 2) == 0 {
		n2 = name()
	}
	mk := func(n string) ecore.EObject {
		if intn("annotation", 2) == 0 {
			a := fac.CreateEAnnotation()
			a.SetSource(n)
			p.GetEAnnotations().Add(a)
			return a
		}
		c := fac.CreateEClass()
		c.SetName(n)
		p.GetEClassifiers().Add(c)
		f := fac.CreateEAttribute()
		f.SetName(n2)
		c.GetEStructuralFeatures().Add(f)
		o := fac.CreateEOperation()
		o.SetName(n2)
		c.GetEOperations().Add(o)
		a := fac.CreateEAnnotation()
		c.GetEAnnotations().Add(a)
		return c
	}
	mk(n1)
	mk(n2)
	mk(n1)
	seen := map[string]bool{}
	for _, x := range append([]any{p}, iterS(p.EAllContents())...) {
		o := x.(ecore.EObject)
		f := r.GetURIFragment(o)
		nd.Check(!seen[f], "different model elements have different fragments")
		seen[f] = true
		nd.Check(r.GetEObject(f) == o, "the fragment of a model element finds it")
	}
	nd.Reach("end")
}

// H_FragmentNames: fragments do not depend on how features are named.
func H_FragmentNames() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	c := f.CreateEClass()
	c.SetName("C")
	p.GetEClassifiers().Add(c)
	n := nd.Str("name", 1+intn("len", nd.Param("n")), "a1_.")
	var fs []ecore.EReference
	for i, name := range []string{n, n + "1", "x" + n} {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetContainment(true)
		r.SetEType(c)
		if i == 2 || intn("many", 2) == 1 {
			r.SetUpperBound(-1)
		}
		c.GetEStructuralFeatures().Add(r)
		fs = append(fs, r)
	}
	mk := func() ecore.EObject {
		o := ecore.NewDynamicEObjectImpl()
		o.SetEClass(c)
		return o
	}
	root := mk()
	r := ecore.NewEResourceImpl()
	r.GetContents().Add(root)
	objs := []ecore.EObject{root}
	for _, ft := range fs {
		at := objs[intn("in", len(objs))]
		for j := 0; j < 2; j++ {
			o := mk()
			if ft.IsMany() {
				at.EGet(ft).(ecore.EList).Add(o)
			} else {
				nd.Assume(j == 1 || !at.EIsSet(ft))
				if j == 1 {
					break
				}
				at.ESet(ft, o)
			}
			objs = append(objs, o)
		}
	}
	seen := map[string]bool{}
	for _, o := range objs {
		s := r.GetURIFragment(o)
		nd.Check(!seen[s], "different objects have different fragments")
		seen[s] = true
		nd.Check(r.GetEObject(s) == o, "the fragment of an object finds it whatever its feature is named")
	}
	nd.Reach("end")
}

// anyN is the class of the objects of H_FragmentAny.
var anyN ecore.EClass

func Setup_FragmentAny() {
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	anyN = f.CreateEClass()
	anyN.SetName("N")
	p.GetEClassifiers().Add(anyN)
	for _, n := range []string{"a", "b", "b.1", "r"} {
		r := f.CreateEReference()
		r.SetName(n)
		r.SetEType(anyN)
		r.SetContainment(n != "r")
		if n == "b" {
			r.SetUpperBound(-1)
		}
		anyN.GetEStructuralFeatures().Add(r)
	}
	for _, n := range []string{"t", "s"} {
		a := f.CreateEAttribute()
		a.SetName(n)
		a.SetEType(ecore.GetPackage().GetEString())
		if n == "t" {
			a.SetUpperBound(-1)
		}
		anyN.GetEStructuralFeatures().Add(a)
	}
}

// H_FragmentAny: any path.
func H_FragmentAny() {
	r := ecore.NewEResourceImpl()
	var objs []ecore.EObject
	fs := anyN.GetEStructuralFeatures()
	ft := func(i int) ecore.EStructuralFeature { return fs.Get(i).(ecore.EStructuralFeature) }
	for i := 0; i < 6; i++ {
		objs = append(objs, anyN.GetEPackage().GetEFactoryInstance().Create(anyN))
	}
	o := objs[0]
	r.GetContents().Add(o)
	o.ESet(ft(0), objs[1])
	o.EGet(ft(1)).(ecore.EList).Add(objs[2])
	o.EGet(ft(1)).(ecore.EList).Add(objs[3])
	dotted := nd.Bool("dotted")
	if dotted {
		o.ESet(ft(2), objs[4])
	}
	o.ESet(ft(3), objs[5]) // not in the resource
	o.EGet(ft(4)).(ecore.EList).Add("x")
	o.ESet(ft(5), "y")
	seg := nd.Str("seg", intn("len", nd.Param("len")+1), "@abrt.01-+")
	want := -1
	switch seg {
	case "@a":
		want = 1
	case "@b.0":
		want = 2
	case "@b.1":
		want = 3
	case "@r":
		want = 5
	}
	one := nd.Bool("object")
	nd.Assume(one || seg != "")
	for _, n := range []string{"+1", "+0", "-0", "00", "01", "000", "001", "+00", "+01", "-00"} { // other ways to write 0 and 1
		nd.Assume(seg != "@b."+n)
	}
	var x ecore.EObject
	if one {
		x = o.(ecore.EObjectInternal).EObjectForFragmentSegment(seg)
	} else {
		x = r.GetEObject("//" + seg)
	}
	i := -1
	for j := range objs {
		if x == objs[j] {
			i = j
		}
	}
	nd.Check((x == nil) == (i < 0), "a path leads to an object of the model or to none")
	nd.Check(i == want, "a path leads to the object it names")
}
