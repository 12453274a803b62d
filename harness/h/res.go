package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// root makes b a direct content of resource r at position at (-1: at the end).
func (g *gstate) root(r, b, at int) {
	g.unroot(b)
	if !g.cross {
		g.uncontain(b)
	}
	if at < 0 || at > len(g.roots[r]) {
		at = len(g.roots[r])
	}
	g.roots[r] = insI(g.roots[r], at, b)
}

// resource of object b, -1 if none.
func (g *gstate) resource(b int) int {
	for b >= 0 {
		for r := range g.roots {
			if idxI(g.roots[r], b) >= 0 {
				return r
			}
		}
		b, _ = g.container(b)
	}
	return -1
}

const resOps = 10

// resStep runs one operation on the contents of a resource.
func resStep(g *gstate, objs []ecore.EObject, res []ecore.EResource) {
	r := intn("r", len(res))
	l := res[r].GetContents()
	cur := g.roots[r]
	n := len(cur)
	all := func(c []int) {
		for _, x := range append([]int{}, c...) {
			g.unroot(x)
		}
	}
	switch intn("rop", resOps) {
	case 0:
		b := g.pick("b")
		ok := l.Add(objs[b])
		nd.Check(ok == (idxI(cur, b) < 0), "adding to a resource reports whether the object was added")
		if ok {
			g.root(r, b, -1)
		}
	case 1:
		i := intn("i", n+1)
		b := g.pick("b")
		ok := l.Insert(i, objs[b])
		nd.Check(ok == (idxI(cur, b) < 0), "inserting in a resource reports whether the object was added")
		if ok {
			g.root(r, b, i)
		}
	case 2:
		b := g.pick("b")
		ok := l.Remove(objs[b])
		nd.Check(ok == (idxI(cur, b) >= 0), "removing from a resource reports whether the object was there")
		if ok {
			g.unroot(b)
		}
	case 3:
		nd.Assume(n > 0)
		i := intn("i", n)
		x := l.RemoveAt(i)
		nd.Check(x == any(objs[cur[i]]), "removing from a resource returns the object")
		g.unroot(cur[i])
	case 4:
		nd.Assume(n > 0)
		i := intn("i", n)
		b := g.pick("b")
		nd.Assume(idxI(cur, b) < 0)
		l.Set(i, objs[b])
		g.unroot(cur[i])
		g.root(r, b, i)
	case 5:
		nd.Assume(n > 1)
		i, j := intn("i", n), intn("j", n)
		l.Move(i, j)
		x := cur[i]
		g.roots[r] = insI(delI(cur, x), j, x)
	case 6:
		l.Clear()
		all(cur)
	case 7:
		b, c := g.pick("b"), g.pick("c")
		l.AddAll(ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		if idxI(cur, b) < 0 {
			g.root(r, b, -1)
		}
		if idxI(g.roots[r], c) < 0 {
			g.root(r, c, -1)
		}
	case 8:
		b, c := g.pick("b"), g.pick("c")
		l.RemoveAll(ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		for _, x := range append([]int{}, cur...) {
			if x == b || x == c {
				g.unroot(x)
			}
		}
	case 9:
		nd.Assume(n > 0)
		i := intn("i", n)
		j := i + intn("len", n-i+1)
		l.RemoveRange(i, j)
		all(cur[i:j])
	}
}

type resListener struct {
	in map[ecore.EObject]bool
}

func (l *resListener) Attached(o ecore.EObject) {
	nd.Check(!l.in[o], "an object is attached to a resource once")
	l.in[o] = true
}

func (l *resListener) Detached(o ecore.EObject) {
	nd.Check(l.in[o], "an object is detached from a resource it is attached to")
	delete(l.in, o)
}

func (g *gstate) checkRes(objs []ecore.EObject, res []ecore.EResource, ls []*resListener) {
	for i, r := range res {
		nd.Check(sameSlice(viewS(r.GetContents()), g.objsOf(objs, g.roots[i])), "a resource holds the expected objects")
		nd.Check(r.IsLoaded() == (len(g.roots[i]) > 0), "a resource changed through its contents is loaded exactly while it holds objects")
		n := 0
		for j := range objs {
			in := g.resource(j) == i
			if in {
				n++
			}
			if ls != nil {
				nd.Check(ls[i].in[objs[j]] == in, "the listeners of a resource know exactly the objects inside it")
			}
		}
		if !g.cross {
			got := iterS(r.GetAllContents())
			nd.Check(len(got) == n, "all contents of a resource lists every object inside it once")
			for j := range objs {
				nd.Check(has(got, objs[j]) == (g.resource(j) == i), "all contents of a resource lists exactly the objects inside it")
			}
		}
	}
	for j, o := range objs {
		c, _ := g.container(j)
		if c < 0 {
			nd.Check(o.EContainer() == nil, "an object directly in a resource has no container")
		} else {
			nd.Check(o.EContainer() == objs[c], "a contained object has its container")
		}
		if k := g.resource(j); k < 0 {
			nd.Check(o.EResource() == nil, "an object outside every resource has no resource")
		} else {
			nd.Check(o.EResource() == res[k], "an object belongs to the resource that holds its tree")
		}
	}
}

func init() {
	All["H_Resource"] = entry{Setup_Resource, H_Resource}
	All["H_ResourceDeep"] = entry{Setup_ResourceDeep, H_ResourceDeep}
	All["H_ResourceCross"] = entry{Setup_ResourceCross, H_ResourceCross}
}

func Setup_Resource()      { mm = buildMM(false, false) }
func Setup_ResourceDeep()  { mm = buildMMFirst(fHolder) }
func Setup_ResourceCross() { mm = buildMM(false, true) }

func resourceCase(cross bool) {
	k := nd.Param("objs")
	g := newG(k)
	g.cross = cross
	objs := newObjs(k)
	var res []ecore.EResource
	var ls []*resListener
	for i := 0; i < 2; i++ {
		r := ecore.NewEResourceImpl()
		res = append(res, r)
		g.roots = append(g.roots, nil)
		if !cross {
			l := &resListener{in: map[ecore.EObject]bool{}}
			r.GetResourceListeners().Add(l)
			ls = append(ls, l)
		}
	}
	fs := []int{fChild, fChildren, fParent, fKids}
	for s := 0; s < nd.Param("steps"); s++ {
		if intn("kind", 2) == 0 {
			resStep(g, objs, res)
		} else {
			graphStep(g, objs, fs[intn("f", len(fs))])
		}
		nd.Reach("step")
	}
	g.checkRes(objs, res, ls)
}

func H_Resource()      { resourceCase(false) }
func H_ResourceCross() { resourceCase(true) }

// H_ResourceDeep: one operation on forests of every shape spread over two resources.
func H_ResourceDeep() {
	k := nd.Param("objs")
	fs := []int{fChild, fChildren, fKids}
	f := fs[intn("in", len(fs))]
	g, objs := spineForest(k, f)
	roots := g.roots[0]
	g.roots = [][]int{nil, nil}
	var res []ecore.EResource
	var ls []*resListener
	for i := 0; i < 2; i++ {
		r := ecore.NewEResourceImpl()
		res = append(res, r)
		l := &resListener{in: map[ecore.EObject]bool{}}
		r.GetResourceListeners().Add(l)
		ls = append(ls, l)
	}
	for _, x := range roots {
		if r := intn("in resource", 3); r < 2 {
			res[r].GetContents().Add(objs[x])
			g.roots[r] = append(g.roots[r], x)
		}
	}
	for s := 0; s < nd.Param("steps"); s++ {
		if intn("kind", 2) == 0 {
			resStep(g, objs, res)
		} else {
			graphStep(g, objs, []int{f, fParent}[intn("f", 2)])
		}
	}
	g.checkRes(objs, res, ls)
	nd.Reach("end")
}
